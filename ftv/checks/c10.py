"""C10: dfs leaves nothing out: what it returns is exactly what the request
admits, judged by an independent enumeration and by relations between requests."""
import itertools

import featuretools as ft
from featuretools.feature_base import (AggregationFeature, DirectFeature, GroupByTransformFeature, IdentityFeature,
                                       TransformFeature)
from featuretools.entityset.relationship import RelationshipPath
from .. import dfswork as D, feat
from ..common import same

CASES = {"quick": 1000, "thorough": 12000}
RULE = ("random entity sets x random dfs requests over all built-in primitives; monitors compare the real list with (a) an "
        "independent enumeration of every admissible feature of depth 1 (equality) and depth 2 (inclusion), (b) the lists of "
        "related requests: ignoring or restricting (globally, per primitive, per input, per groupby) must give exactly the "
        "unrestricted list minus what the restriction names; max_features a prefix; more primitives/depth/seeds a superset; "
        "loading order no difference; distinct = (request, schema)")
NEED = {"enumerated1": 60, "enumerated2": 30, "expected": 3000, "rel:ignore_variables": 20, "rel:ignore_entities": 10,
        "rel:drop": 20, "rel:max_features": 20, "rel:types": 20, "rel:option": 20, "rel:option_per_input": 15, "rel:groupby_option": 15,
        "rel:more_primitives": 20, "rel:deeper": 5, "rel:seeds": 20, "rel:presentation": 10, "rel:where": 20, "rel:spelling": 20, "rel:override": 20, "stacking_rules": 100}
RELS = ["ignore_variables", "ignore_entities", "drop", "max_features", "types", "option", "option_per_input", "groupby_option",
        "more_primitives", "deeper", "seeds", "presentation", "where", "spelling", "allowed_paths", "override"]


def case(rng, rec, tier):
    w = D.world(rng, n_tables=rng.choice([1, 2, 2, 3, 3, 4]))
    es, iv = D.load(rng, w, interesting=0.7)
    target = rng.choice(list(w.tables))
    a = D.request(rng, w, es, target, max_depth=rng.choice([1, 1, 2, 2, 2, 3]))
    if rng.random() < 0.2:
        with D.Stacking(rng, a) as st:
            rec.event("stacking_rules")
            request(rng, rec, w, es, iv, target, a, st)
    else:
        request(rng, rec, w, es, iv, target, a)


def request(rng, rec, w, es, iv, target, a, st=None):
    info = lambda: "target=%s args=%s stacking=%s world=%s" % (target, {k: v for k, v in a.items() if k != "entityset"}, st, w.describe())  # noqa
    fl = ft.dfs(**a)
    if len(fl) > 3000:
        rec.event("too_many")
        return
    full = [(feat.canon(f), f) for f in fl]
    if a["max_depth"] == 1:
        rec.event("enumerated1")
        want = enumerate1(w, es, iv, target, a)
        compare(rec, "depth1", want, {c: f for c, f in full if not where_on_direct(f) and feat.depth(f, where=False) <= 1}, info)
    elif a["max_depth"] == 2 and D.is_tree(w) and len(w.tables) > 1:
        rec.event("enumerated2")
        want = enumerate2(w, es, target, a)
        compare(rec, "depth2", want, dict(full), info, equal=False)
    for r in rng.sample(RELS, 3):
        globals()["rel_" + r](rng, rec, w, es, iv, target, a, full, info)
    rec.nontrivial((target, a["max_depth"], [f.get_name() for f in fl][:40]))
    rec.sample({"target": target, "depth": a["max_depth"], "n": len(fl), "features": [f.get_name() for f in fl][-3:]})


def infix_pair(f, g):
    """f and g are different features of the same name because infix names have no
    parentheses: a direct feature of `a = b`, and `a = b` on a direct feature"""
    def infix_direct(x):
        return feat.kind(x) == "direct" and feat.kind(x.base_features[0]) == "trans" and infix(x.base_features[0])

    def direct_infix(x):
        return feat.kind(x) == "trans" and infix(x) and any(feat.kind(b) == "direct" for b in x.base_features)

    def infix(x):
        return x.get_name().startswith(x.base_features[0].get_name())   # x - 1, x = y, x.isin(...)
    if feat.canon(f) == feat.canon(g):
        return False
    a, b = list(feat.walk(f)), list(feat.walk(g))
    return any(map(infix_direct, a + b)) and any(map(direct_infix, a + b))


def names_of(f):
    yield f.get_name()
    if feat.kind(f) == "trans" and f.primitive.commutative:
        yield TransformFeature(f.base_features[::-1], primitive=f.primitive).get_name()


def known(rec, fs, others):
    """without features which lose against one of the same infix name"""
    by = {}
    for g in others if fs else ():
        for n in names_of(g):
            by.setdefault(n, []).append(g)
    out = []
    for f in fs:
        if any(infix_pair(f, g) for n in names_of(f) for g in by.get(n, ())):
            rec.violation("infix-name", "%s is left out because another feature has the same name" % f.get_name())
        else:
            out.append(f)
    return out


def compare(rec, key, want, got, info, equal=True):
    rec.event("expected", len(want))
    miss = known(rec, [f for c, f in want.items() if c not in got], got.values())
    rec.check(not miss, "missing:%s:%s" % (key, sig(miss)), lambda: "%d admissible features are missing, e.g. %s; %s" % (
        len(miss), [f.get_name() for f in miss[:4]], info()))
    if equal:
        extra = [f for c, f in got.items() if c not in want]
        rec.check(not extra, "extra:%s:%s" % (key, sig(extra)), lambda: "%d features should not be there, e.g. %s; %s" % (
            len(extra), [f.get_name() for f in extra[:4]], info()))


def sig(fs):
    return feat.kind(fs[0]) + (":where" if getattr(fs[0], "where", None) is not None else "") if fs else ""


def where_on_direct(f):
    return any(feat.kind(x) == "agg" and x.where is not None and feat.kind(x.where.base_features[0]) == "direct" for x in feat.walk(f))


# ------------------------------------------------------------ enumeration
def types_of(p):
    t = p.input_types
    return t[0] if isinstance(t[0], list) else t


def combos(prim, feats):
    """admissible inputs: distinct features of the right types, in every order
    (one order if the primitive is commutative)"""
    types = types_of(prim)
    pools = [[f for f in feats if issubclass(f.variable_type, t)] for t in types]
    seen = set()
    for c in itertools.product(*pools):
        keys = [feat.canon(f) for f in c]
        if len(set(keys)) < len(keys):
            continue
        k = frozenset(keys) if prim.commutative else tuple(keys)
        if k not in seen:
            seen.add(k)
            yield list(c)


def ids(es, n):
    return [IdentityFeature(v) for v in es[n].variables]


def rel_obj(es, r):
    p, c, col = r
    for x in es.relationships:
        if (x.parent_entity.id, x.child_entity.id, x.child_variable.id) == (p, c, col):
            return x
    raise KeyError(r)


def back_paths(w, n, limit=6):
    out = []
    stack = [(n, [])]
    while stack:
        cur, path = stack.pop()
        for r in w.rels:
            if r[0] == cur and len(path) < limit:
                out.append(path + [r])
                stack.append((r[1], path + [r]))
    return out


def links(es, path):
    return {x for p, c, col in path for x in ((p, es[p].index), (c, col))}


def not_link(f, lk):
    return not (feat.kind(f) == "id" and (f.entity.id, f.variable.id) in lk)


def stack_ok(prim, inputs):
    return all(D.stacks(prim, f) is None for f in inputs)


def is_trans(f):
    if feat.kind(f) == "direct":
        f = f.base_features[0]
    return feat.kind(f) in ("trans", "group")


def aggs(es, n, path, feats, prims, wheres=(), where_prims=()):
    lk = links(es, path)
    rp = RelationshipPath([(False, rel_obj(es, r)) for r in path])
    use = [f for f in feats if not_link(f, lk) and not (feat.kind(f) == "direct" and f.parent_entity.id == n)]
    for p in prims:
        for c in combos(p, use):
            if not stack_ok(p, c):
                continue
            yield AggregationFeature(c, parent_entity=es[n], relationship_path=rp, primitive=p)
            if isinstance(p, tuple(type(x) for x in where_prims)):
                for wh in wheres:
                    if feat.canon(wh.base_features[0]) not in {feat.canon(b) for b in c}:
                        yield AggregationFeature(c, parent_entity=es[n], relationship_path=rp, primitive=p, where=wh)


def transforms(feats, prims, direct=False):
    for p in prims:
        for c in combos(p, feats):
            if any(is_trans(f) or f.number_output_features > 1 for f in c):
                continue
            if direct and not mixed(c):
                continue
            yield TransformFeature(c, primitive=p)


def groups(feats, prims, by, direct=False):
    for p in prims:
        for c in combos(p, feats):
            if any(is_trans(f) or f.number_output_features > 1 for f in c):
                continue
            for g in by:
                if direct and not mixed(c + [g]):
                    continue
                yield GroupByTransformFeature(c, groupby=g, primitive=p)


def mixed(c):
    """at least one direct feature, and not all brought over the same relationship"""
    d = [f for f in c if feat.kind(f) == "direct"]
    return bool(d) and not (len(d) == len(c) and len({feat.path_key(f.relationship_path) for f in d}) == 1)


def outputs(fs):
    """features with several outputs are passed on output by output"""
    for f in fs:
        if f.number_output_features > 1:
            yield from (f[i] for i in range(f.number_output_features))
        else:
            yield f


def directs(es, w, n, feats_of):
    for p, c, col in w.rels:
        if c == n:
            for f in outputs(feats_of(p)):
                if not_link(f, links(es, [(p, c, col)])):
                    yield DirectFeature(f, es[n], relationship=rel_obj(es, (p, c, col)))


def prims_of(a):
    return tuple([D.prim_classes(a[k]) for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives")])


def enumerate1(w, es, iv, target, a):
    ap, tp, gp, wp = prims_of(a)
    idx = (target, w.tables[target].index)
    out = [f for f in ids(es, target) if (target, f.variable.id) != idx]
    kids = {c for p, c, _ in w.rels if p == target}
    for path in back_paths(w, target):
        c = path[-1][1]
        if c in kids:
            fs = ids(es, c)
            wheres = [f == v for f in fs for v in iv.get((c, f.variable.id), ())]
            out += aggs(es, target, path, fs, ap, wheres, wp)
    me = ids(es, target)
    out += transforms(me, tp)
    out += groups(me, gp, [f for f in me if issubclass(f.variable_type, ft.variable_types.Id)])
    parents = {p for p, c, _ in w.rels if c == target}
    out += directs(es, w, target, lambda p: ids(es, p) if p in parents else [])
    # several primitives of the request can be the same primitive
    return {feat.canon(f): f for f in out}


def one_level(es, w, n, ap, tp, gp, come_from, up=True):
    """features of depth <= 1 which an entity has at least"""
    me = ids(es, n)
    ag = []
    for p, c, col in w.rels:
        if p == n and c != come_from:
            ag += aggs(es, n, [(p, c, col)], ids(es, c), ap)
    tr = list(transforms(me, tp)) + list(groups(me, gp, [f for f in me if issubclass(f.variable_type, ft.variable_types.Id)]))
    di = list(directs(es, w, n, lambda p: ids(es, p) if p != come_from else [])) if up else []
    return me, ag, tr, di


def enumerate2(w, es, target, a):
    """at least these features of depth <= 2, where entities are joined by one path only"""
    ap, tp, gp, _ = prims_of(a)
    idx = (target, w.tables[target].index)
    me, ag, tr, di = one_level(es, w, target, ap, tp, gp, None)
    out = [f for f in me if (target, f.variable.id) != idx] + ag + tr + di
    # aggregations of the children's features, and along paths of two relationships
    for p, c, col in w.rels:
        if p != target:
            continue
        cme, cag, ctr, cdi = one_level(es, w, c, ap, tp, gp, target)
        out += aggs(es, target, [(p, c, col)], cme + cag + ctr + cdi, ap)
        for p2, c2, col2 in w.rels:
            if p2 == c:
                out += aggs(es, target, [(p, c, col), (p2, c2, col2)], ids(es, c2), ap)
    by = [f for f in me if issubclass(f.variable_type, ft.variable_types.Id)]
    out += transforms(me + ag, tp)
    out += groups(me + ag, gp, by)
    # with at least one direct feature
    out += transforms(me + ag + di, tp, direct=True)
    out += groups(me + ag + di, gp, by + [f for f in di if issubclass(f.variable_type, ft.variable_types.Id)], direct=True)
    # direct features of what the parents have

    def of(p):
        pme, pag, ptr, pdi = one_level(es, w, p, ap, tp, gp, target)
        for q, c, col in w.rels:      # including what they aggregate over the target's own columns
            if q == p and c == target:
                pag += aggs(es, p, [(q, c, col)], me, ap)
        return pme + pag + ptr + pdi
    out += directs(es, w, target, of)
    return {feat.canon(f): f for f in out}


# -------------------------------------------------------------- relations
def again(rec, name, a, **kw):
    rec.event("rel:" + name)
    b = dict(a)
    b.update(kw)
    return [(feat.canon(f), f) for f in ft.dfs(**b)]


def expect(rec, name, want, got, info, how, full=None):
    wk, gk = [c for c, _ in want], [c for c, _ in got]
    names = dict((c, f.get_name()) for c, f in want + got)
    rec.event("expected", len(want))
    miss = [feat.canon(f) for f in known(rec, [f for c, f in want if c not in set(gk)], [f for _, f in got])]
    extra = [feat.canon(f) for f in known(rec, [f for c, f in got if c not in set(wk)], full or [f for _, f in want])]
    rec.check(not miss, "rel:%s:missing" % name, lambda: "%s: lost %d features it does not exclude, e.g. %s; %s" % (
        how, len(miss), [names[c] for c in miss[:4]], info()))
    rec.check(not extra, "rel:%s:extra" % name, lambda: "%s: has %d features it excludes, e.g. %s; %s" % (
        how, len(extra), [names[c] for c in extra[:4]], info()))


def uses(f, pred):
    return any(pred(x) for x in feat.walk(f))


def rel_ignore_variables(rng, rec, w, es, iv, target, a, full, info):
    ign = {n: rng.sample(list(t.kinds), rng.randint(1, 2)) for n, t in w.tables.items() if rng.random() < 0.6}
    got = again(rec, "ignore_variables", a, ignore_variables=ign)
    want = [(c, f) for c, f in full if not uses(f, lambda x: feat.kind(x) == "id" and x.variable.id in ign.get(x.entity.id, ()))]
    expect(rec, "ignore_variables", want, got, info, "ignore_variables=%s" % ign, [f for _, f in full])


def rel_ignore_entities(rng, rec, w, es, iv, target, a, full, info):
    others = [n for n in w.tables if n != target]
    if not others or not D.is_tree(w):
        return
    ign = set(rng.sample(others, rng.randint(1, len(others))))
    got = again(rec, "ignore_entities", a, ignore_entities=sorted(ign))

    def bad(x):
        if x.entity.id in ign:
            return True
        return feat.kind(x) in ("agg", "direct") and any(s[1] in ign or s[3] in ign for s in feat.path_key(x.relationship_path))
    expect(rec, "ignore_entities", [(c, f) for c, f in full if not uses(f, bad)], got, info, "ignore_entities=%s" % ign, [f for _, f in full])


def rel_allowed_paths(rng, rec, w, es, iv, target, a, full, info):
    from .c09 import entity_paths, paths
    if not D.is_tree(w):
        return
    ok = {tuple(p) for p in paths(rng, w, target)}
    got = again(rec, "allowed_paths", a, allowed_paths=[list(p) for p in ok])
    # a feature which returns to an entity is made where that entity was first reached, so leave those alone
    straight = lambda f: all(len(set(p)) == len(p) for p in entity_paths(f, (target,), ()))  # noqa
    got = [(c, f) for c, f in got if straight(f)]
    want = [(c, f) for c, f in full if straight(f) and all(p in ok for p in entity_paths(f, (target,), ()))]
    expect(rec, "allowed_paths", want, got, info, "allowed_paths=%s" % ok, [f for _, f in full])


def rel_drop(rng, rec, w, es, iv, target, a, full, info):
    if not full:
        return
    names = [f.get_name() for _, f in full]
    exact = rng.sample(names, min(len(names), rng.randint(1, 3)))
    word = rng.choice(["(", ".", "v0", rng.choice(names)[:5], "WHERE", "[", rng.choice(names).upper()])
    got = again(rec, "drop", a, drop_exact=exact, drop_contains=[word])
    want = [(c, f) for c, f in full if f.get_name() not in exact and word not in f.get_name()]
    expect(rec, "drop", want, got, info, "drop_exact=%s drop_contains=%s" % (exact, word))


def rel_max_features(rng, rec, w, es, iv, target, a, full, info):
    k = rng.randint(1, len(full) + 3)
    got = again(rec, "max_features", a, max_features=k)
    rec.check([c for c, _ in got] == [c for c, _ in full[:k]], "rel:max_features",
              lambda: "max_features=%d gives %d features which are not the first %d; %s" % (k, len(got), k, info()))


def rel_types(rng, rec, w, es, iv, target, a, full, info):
    vt = ft.variable_types
    types = rng.choice([None, [vt.Numeric], [vt.Discrete], [vt.Datetime, vt.Boolean], [vt.Categorical], [vt.NaturalLanguage, vt.LatLong]])
    got = again(rec, "types", a, return_variable_types=types)
    use = tuple(types or [vt.Numeric, vt.Discrete, vt.Boolean])
    expect(rec, "types", [(c, f) for c, f in full if issubclass(f.variable_type, use)], got, info, "return_variable_types=%s" % types)


def admits(o, b):
    """an input under one option dict: naming columns to include beats everything else said about that
    entity, and including an entity beats ignoring it"""
    for x in feat.walk(b):
        e = x.entity.id
        if feat.kind(x) == "id":
            c = x.variable.id
            if e in o.get("include_variables", {}):
                if c not in o["include_variables"][e]:
                    return False
                continue
            if c in o.get("ignore_variables", {}).get(e, ()):
                return False
        if "include_entities" in o:
            if e not in o["include_entities"]:
                return False
        elif e in o.get("ignore_entities", ()):
            return False
    return True


def one_option(rng, w, many=False):
    o = {}
    kinds = ["ignore_entities", "include_entities", "ignore_variables", "include_variables"]
    for kind in rng.sample(kinds, rng.choice([1, 2, 2, 3, 4]) if many else 1):
        if kind.endswith("entities"):
            o[kind] = rng.sample(list(w.tables), rng.randint(1, len(w.tables)))
        else:
            o[kind] = {n: rng.sample(list(w.tables[n].kinds), rng.randint(1, len(w.tables[n].kinds)))
                       for n in rng.sample(list(w.tables), rng.randint(1, min(2, len(w.tables))) if many else 1)}
    return o


def plain(f):
    """inputs of a feature, without the groupby"""
    return f.base_features[:-1] if feat.kind(f) == "group" else f.base_features


def rel_option(rng, rec, w, es, iv, target, a, full, info):
    prims = sum(prims_of(a)[:3], [])
    if not prims:
        return
    ps = rng.sample(prims, min(len(prims), rng.randint(1, 2)))
    o = one_option(rng, w, many=rng.random() < 0.6)
    key = tuple(p.name for p in ps) if len(ps) > 1 and len({p.name for p in ps}) == len(ps) else ps[0].name
    got = again(rec, "option", a, primitive_options={key: o})
    names = key if isinstance(key, tuple) else (key,)

    def bad(x):
        return feat.kind(x) in ("agg", "trans", "group") and x.primitive.name in names and not clause(x, iv) and \
            not all(admits(o, b) for b in plain(x))
    expect(rec, "option", [(c, f) for c, f in full if not uses(f, bad)], got, info, "primitive_options={%s: %s}" % (key, o), [f for _, f in full])


def rel_override(rng, rec, w, es, iv, target, a, full, info):
    """what is ignored by the whole request can be included for one primitive"""
    prims = sum(prims_of(a)[:3], [])
    if not prims:
        return
    p = rng.choice(prims)
    n = rng.choice([x for x in w.tables if x != target] or [None])
    glob = {}
    if n is not None and rng.random() < 0.5:
        glob["ignore_entities"] = [n]
        o = {"include_entities": sorted({n} | set(rng.sample(list(w.tables), 1)))}
    else:
        n = rng.choice(list(w.tables))
        cs = rng.sample(list(w.tables[n].kinds), rng.randint(1, 2))
        glob["ignore_variables"] = {n: cs}
        o = {"include_variables": {n: cs}}
    got = again(rec, "override", a, primitive_options={p.name: o}, **glob)

    def bad(x):
        if feat.kind(x) not in ("agg", "trans", "group") or clause(x, iv):
            return False
        return not all(admits(o if x.primitive.name == p.name else glob, b) for b in plain(x))
    # the groupby of other primitives is governed by the groupby options only
    expect(rec, "override", [(c, f) for c, f in full if not uses(f, bad)], got, info, "%s primitive_options={%s: %s}" % (glob, p.name, o), [f for _, f in full])


def clause(x, iv):
    from .c09 import is_where_clause
    return is_where_clause(x, iv)


def rel_option_per_input(rng, rec, w, es, iv, target, a, full, info):
    prims = [p for p in sum(prims_of(a)[:2], []) if len(types_of(p)) > 1]
    if not prims:
        # make one
        p = rng.choice([ft.primitives.AddNumeric(), ft.primitives.SubtractNumeric(), ft.primitives.Trend(), ft.primitives.DivideNumeric()])
        b = dict(a)
        k = "agg_primitives" if isinstance(p, ft.primitives.Trend) else "trans_primitives"
        b[k] = list(a[k]) + [p]
        fl = ft.dfs(**b)
        if len(fl) > 1500:
            return
        full = [(feat.canon(f), f) for f in fl]
        a = b
    else:
        p = rng.choice(prims)
    os = [one_option(rng, w) for _ in types_of(p)]
    # an input whose entity is excluded by any of the options excludes the entity altogether, so options name columns only
    os = [o if "variables" in list(o)[0] else {} for o in os]
    got = again(rec, "option_per_input", a, primitive_options={p.name: os})

    def bad(x):
        if feat.kind(x) not in ("agg", "trans", "group") or x.primitive.name != p.name or clause(x, iv):
            return False
        orders = itertools.permutations(plain(x)) if x.primitive.commutative else [plain(x)]
        return not any(all(admits(o, b) for o, b in zip(os, order)) for order in orders)
    expect(rec, "option_per_input", [(c, f) for c, f in full if not uses(f, bad)], got, info, "primitive_options={%s: %s}" % (p.name, os), [f for _, f in full])


def rel_groupby_option(rng, rec, w, es, iv, target, a, full, info):
    gps = prims_of(a)[2]
    if not gps:
        b = dict(a, groupby_trans_primitives=[rng.choice(["cum_sum", "cum_count", "diff"])])
        fl = ft.dfs(**b)
        if len(fl) > 1500:
            return
        full, a, gps = [(feat.canon(f), f) for f in fl], b, prims_of(b)[2]
    p = rng.choice(gps)
    n = rng.choice(list(w.tables))
    kind = rng.choice(["ignore_groupby_variables", "ignore_groupby_entities", "include_groupby_entities"])
    o = {kind: {n: rng.sample(list(w.tables[n].kinds), 2)}} if kind.endswith("variables") else {kind: rng.sample(list(w.tables), 1)}
    if kind.endswith("entities") and rng.random() < 0.4:
        for k in ("ignore_groupby_entities", "include_groupby_entities"):
            o.setdefault(k, rng.sample(list(w.tables), rng.randint(1, len(w.tables))))
    got = again(rec, "groupby_option", a, primitive_options={p.name: o})
    inputs = {k.replace("groupby_", ""): v for k, v in o.items()}
    wanted, unwanted = o.get("include_groupby_entities"), o.get("ignore_groupby_entities", ())

    def bad(x):
        return feat.kind(x) == "group" and x.primitive.name == p.name and not (
            admits(inputs, x.groupby) and (x.entity.id in wanted if wanted is not None else x.entity.id not in unwanted))
    expect(rec, "groupby_option", [(c, f) for c, f in full if not uses(f, bad)], got, info, "primitive_options={%s: %s}" % (p.name, o), [f for _, f in full])
    # naming groupby columns admits columns which are no ids
    cats = [c for c, k in w.tables[target].kinds.items() if k in ("cat", "ord", "zip")]
    if cats:
        c = rng.choice(cats)
        got = again(rec, "groupby_option", a, primitive_options={p.name: {"include_groupby_variables": {target: [c]}}}, max_depth=1)
        have = {feat.canon(f) for _, f in got}
        me = [f for f in ids(es, target)]
        g = [f for f in me if f.variable.id == c]
        for f in groups(me, [p], g):
            rec.event("expected")
            rec.check(feat.canon(f) in have, "missing:include_groupby_variables", lambda: "%s; %s" % (f.get_name(), info()))
        for _, f in got:
            if feat.kind(f) == "group" and f.primitive.name == p.name and feat.kind(f.groupby) == "id":
                rec.check(f.groupby.variable.id == c, "extra:include_groupby_variables", lambda: "%s; %s" % (f.get_name(), info()))


def rel_more_primitives(rng, rec, w, es, iv, target, a, full, info):
    agg, tr = D.all_prims()
    b = dict(agg_primitives=list(a["agg_primitives"]) + [rng.choice(sorted(agg))],
             trans_primitives=list(a["trans_primitives"]) + [rng.choice([k for k in sorted(tr) if len(types_of(tr[k])) == 1])])
    if w.time_kind == "numeric" and any(p.uses_calc_time for p in D.prim_classes(b["agg_primitives"] + b["trans_primitives"])):
        return
    got = again(rec, "more_primitives", a, **b)
    have = {c for c, _ in got}
    miss = known(rec, [f for c, f in full if c not in have], [f for _, f in got])
    rec.event("expected", len(full))
    rec.check(not miss, "rel:more_primitives", lambda: "asking for more primitives (%s) loses %s; %s" % (b, [f.get_name() for f in miss[:4]], info()))


def rel_deeper(rng, rec, w, es, iv, target, a, full, info):
    if not D.is_tree(w) or a["max_depth"] > 1 or len(w.tables) == 1:
        return
    got = again(rec, "deeper", a, max_depth=2)
    have = {c for c, _ in got}
    miss = known(rec, [f for c, f in full if c not in have], [f for _, f in got])
    rec.event("expected", len(full))
    rec.check(not miss, "rel:deeper", lambda: "max_depth 2 loses %s; %s" % ([f.get_name() for f in miss[:4]], info()))


def rel_seeds(rng, rec, w, es, iv, target, a, full, info):
    from .. import ref
    fg = ref.FeatureGen(rng, w, max_depth=2)
    b = ref.Builder(es, w)
    seeds = [s for s in (b(fg.top(target)) for _ in range(2)) if feat.kind(s) != "id"]
    seeds = [s for i, s in enumerate(seeds) if s.unique_name() not in [x.unique_name() for x in seeds[:i]]]
    if not seeds:
        return
    got = again(rec, "seeds", a, seed_features=seeds)
    have = {c for c, _ in got}
    names = {f.get_name() for _, f in got}
    rec.event("expected", len(full) + len(seeds))
    for s in seeds:
        rec.check(s.get_name() in names, "rel:seeds:seed", lambda: "seed %s is not in the answer; %s" % (s.get_name(), info()))
    snames = {s.unique_name() for s in seeds}
    miss = known(rec, [f for c, f in full if c not in have and f.unique_name() not in snames], [f for _, f in got])
    rec.check(not miss, "rel:seeds:lost", lambda: "seeds %s lose %s; %s" % ([s.get_name() for s in seeds], [f.get_name() for f in miss[:4]], info()))
    # primitives are applied on top of seeds as on any feature of depth 0
    for p in prims_of(a)[1]:
        for s in seeds:
            if len(types_of(p)) == 1 and issubclass(s.variable_type, types_of(p)[0]) and not is_trans(s) and feat.kind(s) == "agg":
                f = TransformFeature([s], primitive=p)
                rec.event("expected")
                rec.check(feat.canon(f) in have, "rel:seeds:stack", lambda: "%s missing on seed; %s" % (f.get_name(), info()))


def rel_presentation(rng, rec, w, es, iv, target, a, full, info):
    if not D.is_tree(w):
        return
    from .. import gen
    es2 = gen.build_es(w, lti=False, rng=rng, shuffle=True)
    for (n, c), v in iv.items():
        es2[n][c].interesting_values = v
    b = {}
    for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives"):
        b[k] = rng.sample(a[k], len(a[k]))
    got = again(rec, "presentation", a, entityset=es2, **b)
    expect(rec, "presentation", full, got, info, "another loading order")


def rel_where(rng, rec, w, es, iv, target, a, full, info):
    got = again(rec, "where", a, where_primitives=[rng.choice(["time_since_last", "entropy"])]) \
        if not any(p.name in ("time_since_last", "entropy") for p in prims_of(a)[0]) else []
    if got:
        nowhere = [(c, f) for c, f in full if not uses(f, lambda x: feat.kind(x) == "agg" and x.where is not None)]
        expect(rec, "where", nowhere, got, info, "where_primitives not asked for")
    # where features that must be there: on the children's own columns
    ap, _, _, wp = prims_of(a)
    have = {c for c, _ in full}
    for path in back_paths(w, target):
        if len(path) == 1:
            c = path[0][1]
            fs = ids(es, c)
            wheres = [f == v for f in fs for v in iv.get((c, f.variable.id), ())]
            for f in aggs(es, target, path, fs, ap, wheres, wp):
                rec.event("expected")
                rec.check(feat.canon(f) in have, "missing:where", lambda: "%s; %s" % (f.get_name(), info()))


def rel_spelling(rng, rec, w, es, iv, target, a, full, info):
    """primitives by name, class or instance are the same primitives"""
    b = {}
    for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives"):
        out = []
        for p, inst in zip(a[k], D.prim_classes(a[k])):
            default = feat.prim_key(inst) == feat.prim_key(type(inst)())
            out.append(rng.choice([inst.name, inst.name.upper(), type(inst), inst]) if default else inst)
        b[k] = out
    got = again(rec, "spelling", a, **b)
    expect(rec, "spelling", full, got, info, "other spelling %s" % b)


def finish(rec, tier, seed):
    """the finding in known_findings.txt: `p.x = y` is a direct feature of `x = y`, or compares the direct feature of x"""
    import pandas as pd
    es = ft.EntitySet("k")
    es.entity_from_dataframe("p", pd.DataFrame({"id": [1, 2], "x": [1., 2.], "y": [3., 4.]}), index="id")
    es.entity_from_dataframe("c", pd.DataFrame({"cid": [1, 2], "pid": [1, 2], "y": [5., 6.]}), index="cid")
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["pid"]))
    fl = ft.dfs(entityset=es, target_entity="c", agg_primitives=[], trans_primitives=["subtract_numeric"], max_depth=2, features_only=True)
    have = {feat.canon(f) for f in fl}
    x, y, cy = [IdentityFeature(v) for v in (es["p"]["x"], es["p"]["y"], es["c"]["y"])]
    both = [DirectFeature(TransformFeature([x, y], primitive=ft.primitives.SubtractNumeric()), es["c"]),
            TransformFeature([DirectFeature(x, es["c"]), cy], primitive=ft.primitives.SubtractNumeric())]
    rec.event("probes", len(both))
    miss = known(rec, [f for f in both if feat.canon(f) not in have], fl)
    rec.check(not miss, "probe", lambda: "missing %s" % [f.get_name() for f in miss])
