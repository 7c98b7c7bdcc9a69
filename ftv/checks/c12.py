"""C12: a feature is its definition: names, copies, slices, operators and ways
of spelling do not change what is calculated."""
import math

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from featuretools.feature_base import (AggregationFeature, DirectFeature, FeatureOutputSlice, GroupByTransformFeature,
                                       IdentityFeature, TransformFeature)
from .. import feat, gen, ref
from ..common import norm, same
from ..workload import cutoff_frame, nmc_feature, unique_features

CASES = {"quick": 420, "thorough": 6000}
RULE = ("random features (AST generator and multi-output aggregations with slices, directs and features on slices) and for each of them "
        "variants with the same definition: renamed at the top, renamed at random inner nodes, copied, rebuilt node by node through "
        "Feature() / feature classes / primitive instances; plus Python operators on random pairs of features and scalars; monitors: all "
        "variants give the same column alone and together, operators give the column Python computes from the operands' columns, "
        "slices the column they stand for, names are one-to-one with definitions, dependencies and depth complete; distinct = definitions")
NEED = {"variants": 1500, "renamed_inner": 300, "copies": 200, "rebuilt": 300, "operators": 1000, "reflected": 50, "slices": 80,
        "on_slices": 60, "multi": 60, "names": 3000, "dependencies": 500, "cells": 10000, "renamed_columns": 2000}


class Names:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def __call__(self):
        self.n += 1
        return self.rng.choice(["n%d", "a, %d", "SUM(x%d)", "Ünï %d", "%d", "'q\"%d", "x[%d]"]) % self.n


def rebuild(rng, f, names, p, memo):
    """the same definition built again, some nodes renamed"""
    if id(f) in memo:
        return memo[id(f)]
    k = feat.kind(f)
    b = [rebuild(rng, x, names, p, memo) for x in f.base_features]
    prim = f.primitive
    if k not in ("id", "direct", "slice") and rng.random() < 0.4 and not prim.get_arguments():
        prim = type(prim)
    if k == "id":
        out = rng.choice([IdentityFeature, ft.Feature])(f.entityset[f.entity.id][f.variable.id])
    elif k == "slice":
        out = b[0][f.n] if rng.random() < 0.6 else FeatureOutputSlice(b[0], f.n)
    elif k == "direct":
        rels = [r for r in f.entityset.relationships if r.child_entity.id == f.entity.id and r.parent_entity.id == b[0].entity.id]
        if len(rels) == 1 and rng.random() < 0.5:
            out = rng.choice([lambda: ft.Feature(b[0], f.entity), lambda: DirectFeature(b[0], f.entity)])()
        else:
            out = DirectFeature(b[0], f.entity, relationship=f.relationship_path[0][1])
    elif k == "agg":
        where = rebuild(rng, f.where, names, p, memo) if f.where is not None else None
        out = AggregationFeature(b, parent_entity=f.entity, primitive=prim, relationship_path=f.relationship_path, where=where,
                                 use_previous=f.use_previous)
    elif k == "group":
        if rng.random() < 0.5:
            out = ft.Feature(b[:-1], primitive=prim, groupby=b[-1])
        else:
            out = GroupByTransformFeature(b[:-1], primitive=prim, groupby=b[-1])
    else:
        if len(b) == 1 and rng.random() < 0.3:
            b = b[0]
        out = rng.choice([ft.Feature, TransformFeature])(b, primitive=prim)
    if rng.random() < p:
        out = out.rename(names())
    memo[id(f)] = out
    return out


def multis(rng, w, es, target):
    """multi-output features, their slices and features on slices"""
    out = []
    m = nmc_feature(rng, w, es, target, P.NMostCommon(n=rng.choice([2, 3])))
    if m is None:
        return out
    if rng.random() < 0.3:
        m = m.rename("multi")
    i = rng.randrange(m.number_output_features)
    out += [m[i], TransformFeature([m[i]], primitive=P.IsNull)]
    if rng.random() < 0.4:
        out.append(m[1 - min(i, 1)].rename("part"))
    for r in [r for r in es.relationships if r.parent_entity.id == target][:1]:
        d = DirectFeature(m, r.child_entity, relationship=r)
        from featuretools.entityset.relationship import RelationshipPath
        back = RelationshipPath([(False, r)])
        out.append(AggregationFeature([d[i]], parent_entity=es[target], primitive=rng.choice([P.NumUnique, P.Mode]),
                                      relationship_path=back))
        dm = DirectFeature(m[i], r.child_entity, relationship=r)
        out.append(AggregationFeature([dm], parent_entity=es[target], primitive=P.NumUnique, relationship_path=back))
    return out


def columns(f):
    return f.get_feature_names()


def calc(objs, es, df, **kw):
    return ft.calculate_feature_matrix(objs, es, cutoff_time=df, cutoff_time_in_index=True, **kw)


def collide(fs):
    seen = {}
    for f in fs:
        for x in feat.walk(f):
            k = (x.entity.id, x.get_name())
            if seen.setdefault(k, feat.canon(x)) != feat.canon(x):
                return True
    return False


def compare(rec, key, want, got, msg):
    a, b = list(want), list(got)
    rec.event("cells", len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y, 1e-9, 1e-12):
            return rec.violation(key, "%s: row %d: %r, other %r" % (msg, i, x, y))
    rec.check(len(a) == len(b), key, msg)


def case(rng, rec, tier):
    w = gen.gen_world(rng, nulls=rng.choice([0.0, 0.2]), kinds=("num", "num", "int", "int", "bool", "bool", "cat", "ord", "dt", "text"))
    es = gen.build_es(w, lti=rng.random() < 0.5, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]), multi_unit=True)
    build = ref.Builder(es, w)
    objs = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(2, 5))], build)]
    ms = multis(rng, w, es, target) if rng.random() < 0.6 else []
    seen = {o.get_name() for o in objs}
    for m in ms:
        if m.get_name() not in seen:
            objs.append(m)
            seen.add(m.get_name())
    pairs, df = cutoff_frame(rng, w, target, rng.randint(2, 6), n_times=rng.randint(1, 2), missing=0.15)
    if collide(objs):
        return rec.event("collisions")
    base = calc(objs, es, df)
    rec.event("multi", len(ms))
    for o in objs:
        rec.nontrivial(feat.canon(o))
        structure(rec, o)
    variants(rng, rec, es, df, objs, base)
    t = w.tables[target]
    oracles = {T: ref.Oracle(w, T) for _, T in pairs}
    alive = [iid in {r[t.index] for r in oracles[T].rows(target)} for iid, T in pairs]
    slices(rng, rec, w, es, df, target, alive)
    operators(rng, rec, w, es, df, target, fg, build, alive)
    name_pool(rng, rec, w, es, fg, build, target, objs)
    rec.sample({"target": target, "features": [o.get_name() for o in objs], "rows": [str(p) for p in pairs][:4]})


def structure(rec, o):
    """dependencies and depth are complete"""
    rec.event("dependencies")
    below = [feat.canon(x) for x in feat.walk(o)][1:]
    got = [feat.canon(x) for x in o.get_dependencies(deep=True)]
    rec.check(set(got) == set(below), "dependencies", lambda: "%s depends on %s, said %s" % (o.get_name(), set(below) - set(got), set(got) - set(below)))
    direct = [feat.canon(x) for x in o.get_dependencies()]
    rec.check(sorted(map(repr, direct)) == sorted(repr(feat.canon(x)) for x in feat.deps(o)), "direct-dependencies", lambda: "%s: %s" % (o.get_name(), direct))
    if not any(feat.kind(x) == "slice" for x in feat.walk(o)):
        rec.check(o.get_depth() == feat.depth(o), "depth", lambda: "%s depth %s wanted %s" % (o.get_name(), o.get_depth(), feat.depth(o)))


def variants(rng, rec, es, df, objs, base):
    names = Names(rng)
    vs = []
    for o in objs:
        vs.append((o, o.rename(names()), "renamed"))
        c = o.copy()
        rec.event("copies")
        vs.append((o, c.rename(names()), "copied"))
        rec.check(feat.canon(c) == feat.canon(o), "copy-definition", lambda: "%s copied is %s" % (o, c))
        r = rebuild(rng, o, names, 0.0, {})
        rec.check(feat.canon(r) == feat.canon(o), "rebuilt-definition", lambda: "%s rebuilt is %s" % (feat.canon(o), feat.canon(r)))
        if not any(x._name for x in feat.walk(o)):
            rec.check(r.get_name() == o.get_name(), "rebuilt-name", lambda: "%r rebuilt is named %r" % (o.get_name(), r.get_name()))
        rec.event("rebuilt")
        vs.append((o, r.rename(names()), "rebuilt"))
        d = rebuild(rng, o, names, rng.choice([0.3, 0.7, 1.0]), {})
        rec.event("renamed_inner")
        vs.append((o, d.rename(names()), "renamed inside"))
        rec.check(feat.canon(d) == feat.canon(o), "renamed-definition", lambda: "%s is not %s" % (feat.canon(o), feat.canon(d)))
    for o, v, how in vs:
        n = v._name
        cols = [n] if v.number_output_features == 1 else ["%s[%d]" % (n, i) for i in range(v.number_output_features)]
        rec.check(v.get_feature_names() == cols, "renamed-columns", lambda: "%s %s as %r has columns %s" % (o.get_name(), how, n, v.get_feature_names()))
        rec.event("renamed_columns")
    rng.shuffle(vs)
    before = [(o.get_name(), feat.canon(o)) for o in objs]
    if rng.random() < 0.5:
        run = [[v for v in vs]]
    else:
        k = rng.randint(1, max(1, len(vs) // 2))
        run = [vs[i:i + k] for i in range(0, len(vs), k)][:3]
    for part in run:
        with_base = rng.random() < 0.5
        req = [v for _, v, _ in part] + (objs if with_base else [])
        rng.shuffle(req)
        fm = calc(req, es, df)
        for o, v, how in part:
            rec.event("variants")
            compare(rec, "variant:" + how.replace(" ", "-"), base[o.get_name()], fm[v.get_name()],
                    "%s %s as %s %s" % (o.get_name(), how, v.get_name(), [str(x) for x in df.values.tolist()]))
    rec.check(before == [(o.get_name(), feat.canon(o)) for o in objs], "renaming-changed-the-original", lambda: "%s" % (before,))


def slices(rng, rec, w, es, df, target, alive):
    """a slice is the column it stands for; features on slices see that column"""
    m = nmc_feature(rng, w, es, target, P.NMostCommon(n=rng.choice([2, 3, 4])))
    if m is None:
        return
    if rng.random() < 0.3:
        m = m.rename("common, %d" % rng.randint(0, 9))
    n = m.number_output_features
    fm = calc([m], es, df)
    cols = m.get_feature_names()
    rec.check(list(fm.columns) == cols and len(set(cols)) == n, "multi-columns", lambda: "%s, names %s" % (list(fm.columns), cols))
    sl = [m[i] for i in range(n)]
    rec.check([s.get_name() for s in sl] == cols, "slice-names", lambda: "%s %s" % ([s.get_name() for s in sl], cols))
    vals = sorted({v for c in cols for v in fm[c].dropna()}, key=repr)
    v = rng.choice(vals) if vals else "x"
    q = sl + [s.rename("part %d" % i) for i, s in enumerate(sl)]
    on = [TransformFeature([s], primitive=P.IsNull) for s in sl] + [(s == v).rename("is %d" % i) for i, s in enumerate(sl)] + \
        [s.isin([v]).rename("in %d" % i) for i, s in enumerate(sl)]
    req = on + rng.choice([[], sl, q])
    rng.shuffle(req)
    got = calc(req, es, df)
    for f in req:
        rec.event("slices" if isinstance(f, FeatureOutputSlice) else "on_slices")
        i = next(x.n for x in feat.walk(f) if isinstance(x, FeatureOutputSlice))
        src = list(fm[cols[i]])
        if isinstance(f, FeatureOutputSlice):
            want = src
        elif isinstance(f.primitive, P.IsNull):
            want = [norm(x) is None for x in src]
        elif isinstance(f.primitive, P.EqualScalar):
            want = [norm(x) == v for x in src]
        else:
            want = [norm(x) == v for x in src]
        keep = [k for k, ok in enumerate(alive) if ok or isinstance(f, FeatureOutputSlice)]
        compare(rec, "slice", [want[k] for k in keep], [got[f.get_name()].iloc[k] for k in keep], "%s of %s" % (f.get_name(), m.get_name()))


def num(x):
    x = norm(x)
    return math.nan if x is None else float(x)


def arith(fn):
    def g(x, y):
        x, y = num(x), num(y)
        if math.isnan(x) or math.isnan(y):
            return math.nan
        try:
            return fn(x, y)
        except ZeroDivisionError:
            return None          # judged by numpy rules below
        except OverflowError:
            return None
    return g


def cmp(fn, missing=False):
    def g(x, y):
        x, y = num(x), num(y)
        if math.isnan(x) or math.isnan(y):
            return missing
        return fn(x, y)
    return g


OPS = [
    ("+", lambda a, b: a + b, arith(lambda x, y: x + y)), ("-", lambda a, b: a - b, arith(lambda x, y: x - y)),
    ("*", lambda a, b: a * b, arith(lambda x, y: x * y)), ("/", lambda a, b: a / b, arith(lambda x, y: x / y)),
    ("%", lambda a, b: a % b, arith(lambda x, y: x % y)), ("<", lambda a, b: a < b, cmp(lambda x, y: x < y)),
    ("<=", lambda a, b: a <= b, cmp(lambda x, y: x <= y)), (">", lambda a, b: a > b, cmp(lambda x, y: x > y)),
    (">=", lambda a, b: a >= b, cmp(lambda x, y: x >= y)), ("==", lambda a, b: a == b, cmp(lambda x, y: x == y)),
    ("!=", lambda a, b: a != b, cmp(lambda x, y: x != y, True)),
]
UN = [("-", lambda a: -a, lambda x: -num(x)), ("abs", lambda a: abs(a), lambda x: abs(num(x))),
      ("is_null", lambda a: a.is_null(), lambda x: math.isnan(num(x)))]


def operators(rng, rec, w, es, df, target, fg, build, alive):
    nums = [f for f in [fg.get(target, ref.NUM, rng.choice([0, 1, 2])) for _ in range(4)] if f is not None]
    bools = [f for f in [fg.get(target, ref.BOOL, rng.choice([0, 1])) for _ in range(3)] if f is not None]
    nums = [build(f) for f in nums]
    bools = [build(f) for f in bools]
    made = []
    for _ in range(4 if nums else 0):
        sym, op, py = rng.choice(OPS)
        a = rng.choice(nums)
        s = rng.choice([0, 1, -2, 2.5, 7, 0.1, np.float64(3), np.int64(4)])
        r = rng.random()
        if r < 0.4:
            b = rng.choice(nums)
            made.append((op(a, b), a, b, py, sym))
        elif r < 0.7:
            made.append((op(a, s), a, s, py, sym))
        elif not isinstance(s, np.generic):
            rec.event("reflected")
            made.append((op(s, a), s, a, py, "r" + sym))
    for sym, op, py in rng.sample(UN, 2) if nums else []:
        a = rng.choice(nums)
        made.append((op(a), a, None, (lambda p: lambda x, _: p(x))(py), sym))
    if bools:
        a, b = rng.choice(bools), rng.choice(bools)
        T = lambda x: bool(norm(x))
        made.append((a & b, a, b, lambda x, y: T(x) and T(y), "&"))
        made.append((a | b, a, b, lambda x, y: T(x) or T(y), "|"))
        made.append((a.AND(b), a, b, lambda x, y: T(x) and T(y), "AND"))
        made.append((a.OR(b), a, b, lambda x, y: T(x) or T(y), "OR"))
        made.append((~a, a, None, lambda x, y: not T(x), "~"))
        made.append((a.NOT(), a, None, lambda x, y: not T(x), "NOT"))
        made.append((a * b, a, b, lambda x, y: T(x) and T(y), "*bool"))
        made.append((a == b, a, b, lambda x, y: T(x) == T(y), "==bool"))
        made.append((a != b, a, b, lambda x, y: T(x) != T(y), "!=bool"))
    if not made:
        return
    req, where = [], []
    for i, (f, a, b, py, sym) in enumerate(made):
        req += [f.rename("op%d" % i)]
        for side, x in (("a", a), ("b", b)):
            if isinstance(x, ft.feature_base.FeatureBase):
                req.append(x.rename("%s%d" % (side, i)))
    if collide(req):
        return rec.event("collisions")
    rng.shuffle(req)
    fm = calc(req, es, df)
    for i, (f, a, b, py, sym) in enumerate(made):
        rec.event("operators")
        rec.nontrivial((sym, feat.canon(f)))
        col = lambda side, x: list(fm["%s%d" % (side, i)]) if isinstance(x, ft.feature_base.FeatureBase) else [x] * len(fm)
        A, B = col("a", a), col("b", b)
        for row, (x, y, got) in enumerate(zip(A, B, fm["op%d" % i])):
            if not alive[row]:
                continue           # an instance without data has every feature's default
            if "bool" in sym or sym in ("&", "|", "AND", "OR", "~", "NOT"):
                if norm(x) is None or (isinstance(b, ft.feature_base.FeatureBase) and norm(y) is None):
                    continue       # an instance without data
            rec.event("cells")
            if len(sym.lstrip("r")) == 1 and sym.lstrip("r") in "+-*/%" and not (np.isfinite(num(x)) and (b is None or np.isfinite(num(y)))):
                if not (math.isnan(num(x)) or math.isnan(num(y) if b is not None else 0)):
                    continue
            if b is None and sym == "abs" and not np.isfinite(num(x)) and not math.isnan(num(x)):
                continue
            want = py(x, y)
            if want is None:
                x1, y1 = num(x), num(y)
                with np.errstate(all="ignore"):
                    want = {"/": np.divide, "%": lambda p, q: pd.Series([p]).mod(q).iloc[0]}.get(sym.lstrip("r"), lambda p, q: np.nan)(np.float64(x1), np.float64(y1))
            if not same(got, want, 1e-7, 1e-9):
                rec.violation("operator:" + sym, "%s: %r %s %r gave %r, not %r (%s)" % (f.get_name(), x, sym, y, got, want, f.primitive.name))
                break


INFIX = {"greater_than", "greater_than_equal_to", "less_than", "less_than_equal_to", "equal", "not_equal", "add_numeric", "subtract_numeric",
         "multiply_numeric", "multiply_boolean", "divide_numeric", "modulo_numeric"}


def infix(f):
    """names of infix features have no parentheses (C10's known finding)"""
    return any(x.primitive is not None and (x.primitive.name in INFIX or "scalar" in (x.primitive.name or "") or "_by" in (x.primitive.name or ""))
               for x in feat.walk(f) if hasattr(x, "primitive"))


def name_pool(rng, rec, w, es, fg, build, target, objs):
    """names are one-to-one with definitions"""
    pool = list(objs)
    for e in w.tables:
        pool += [build(fg.top(e)) for _ in range(4)]
    seen, canons = {}, {}
    for f in pool:
        for x in feat.walk(f):
            rec.event("names")
            if any(y._name for y in feat.walk(x)):
                continue
            k = (x.entity.id, x.get_name())
            c = feat.canon(x)
            canons.setdefault(c, x)
            rec.check(canons[c].get_name() == x.get_name() or c[0] == "trans" or commuted(x), "one-definition-two-names",
                      lambda: "%s and %s" % (canons[c].get_name(), x.get_name()))
            old = seen.setdefault(k, x)
            if feat.canon(old) != c and not infix(x) and not infix(old):
                rec.violation("two-definitions-one-name", "%s: %s and %s" % (k, feat.canon(old), c))


def commuted(f):
    return any(getattr(x.primitive, "commutative", False) for x in feat.walk(f) if getattr(x, "primitive", None) is not None)
