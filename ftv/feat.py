"""Structural view of real feature objects (no use of names or repr)."""
from featuretools.feature_base import (AggregationFeature, DirectFeature, FeatureOutputSlice, GroupByTransformFeature,
                                       IdentityFeature, TransformFeature)


def rel_key(r):
    return (r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)


def path_key(p):
    return tuple((bool(fwd),) + rel_key(r) for fwd, r in p)


def prim_key(p):
    args = []
    try:
        args = sorted((k, repr(v)) for k, v in p.get_arguments())
    except Exception:
        pass
    return (type(p).__name__,) + tuple(args)


def delta_key(td):
    if td is None:
        return None
    return tuple(sorted((u, float(v)) for u, v in td.times.items()))


def kind(f):
    if isinstance(f, FeatureOutputSlice):
        return "slice"
    if isinstance(f, IdentityFeature):
        return "id"
    if isinstance(f, DirectFeature):
        return "direct"
    if isinstance(f, AggregationFeature):
        return "agg"
    if isinstance(f, GroupByTransformFeature):
        return "group"
    if isinstance(f, TransformFeature):
        return "trans"
    return type(f).__name__


MEMO = {}


def canon(f):
    """Hashable structure: what the feature means."""
    hit = MEMO.get(id(f))
    if hit is not None and hit[0] is f:
        return hit[1]
    c = _canon(f)
    if len(MEMO) > 50000:
        MEMO.clear()
    MEMO[id(f)] = (f, c)
    return c


def _canon(f):
    k = kind(f)
    if k == "id":
        return ("id", f.entity.id, f.variable.id)
    if k == "slice":
        return ("slice", f.n, canon(f.base_feature))
    if k == "direct":
        return ("direct", f.entity.id, path_key(f.relationship_path), canon(f.base_features[0]))
    if k == "agg":
        return ("agg", f.entity.id, path_key(f.relationship_path), prim_key(f.primitive), tuple(canon(b) for b in f.base_features),
                canon(f.where) if f.where is not None else None, delta_key(f.use_previous))
    if k == "group":
        return ("group", prim_key(f.primitive), tuple(canon(b) for b in f.base_features[:-1]), canon(f.groupby))
    bases = tuple(canon(b) for b in f.base_features)
    if getattr(f.primitive, "commutative", False):
        bases = tuple(sorted(bases, key=repr))
    return ("trans", prim_key(f.primitive), bases)


def deps(f):
    """Direct dependencies by structure."""
    k = kind(f)
    if k == "slice":
        return [f.base_feature]
    d = list(f.base_features)
    if k == "agg" and f.where is not None:
        d.append(f.where)
    return d


def walk(f):
    yield f
    for d in deps(f):
        for x in walk(d):
            yield x


def depth(f, stop=(), where=True, memo=None):
    """Longest chain of features below f; where=False leaves where clauses and slices out."""
    memo = {} if memo is None else memo
    if id(f) not in memo:
        if kind(f) == "id" or (stop and canon(f) in stop):
            memo[id(f)] = 0
        elif kind(f) == "slice" and not where:
            memo[id(f)] = depth(f.base_feature, stop, where, memo)
        else:
            memo[id(f)] = 1 + max(depth(d, stop, where, memo) for d in (deps(f) if where else f.base_features))
    return memo[id(f)]


def show(c):
    return repr(c)
