"""Exact snapshots of user-visible objects (EntitySet, features, containers)."""
import json

import pandas as pd

from .common import freeze_frame, norm


def es_state(es, data=True):
    out = {"id": es.id, "time_type": getattr(es.time_type, "__name__", es.time_type),
           "entities": [e.id for e in es.entities],
           "relationships": [str(r) for r in es.relationships]}
    for e in es.entities:
        d = {"id": e.id, "index": e.index, "time_index": e.time_index, "created_index": e.created_index,
             "secondary": {k: list(v) for k, v in e.secondary_time_index.items()},
             "vars": [var_state(v) for v in e.variables]}
        if data and isinstance(e.df, pd.DataFrame):
            d["df"] = freeze_frame(e.df)
            d["lti"] = None if e.last_time_index is None else (
                [norm(x) for x in e.last_time_index.index], [norm(x) for x in e.last_time_index],
                e.last_time_index.name, str(e.last_time_index.dtype))
        out["e:" + e.id] = d
    return out


def var_state(v):
    iv = v.interesting_values
    return (v.id, type(v).__name__, getattr(v, "name", None), v.description if hasattr(v, "description") else None,
            None if iv is None else [norm(x) for x in iv],
            sorted((k, repr(x)) for k, x in getattr(v, "__dict__", {}).items()
                   if k in ("categories", "format", "true_values", "false_values", "range", "start_inclusive")))


def diff_state(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r became %r" % (path, short(a), short(b))
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s: key %r %s" % (path, k, "added" if k not in a else "removed")
            d = diff_state(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d became %d: %s / %s" % (path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_state(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return "%s: %r became %r" % (path, short(a), short(b))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def feature_state(f):
    return json.dumps(feature_dict(f), sort_keys=True, default=str)


def feature_dict(f):
    """Structure of a feature, recursively, through its public description."""
    d = {"class": type(f).__name__, "name": f.get_name(), "names": f.get_feature_names(), "entity": f.entity.id,
         "path": str(f.relationship_path), "bases": [feature_dict(b) for b in f.base_features],
         "args": str(sorted((k, str(v)) for k, v in f.get_arguments().items() if k != "base_features")),
         "vt": f.variable_type.__name__, "n": f.number_output_features}
    if f.primitive is not None:
        d["prim"] = [type(f.primitive).__name__, getattr(f.primitive, "name", None),
                     str(sorted((k, str(v)) for k, v in f.primitive.get_arguments()))]
    return d


def obj_state(x):
    """Containers of plain values, series, frames, features."""
    import featuretools as ft
    if isinstance(x, pd.DataFrame):
        return freeze_frame(x)
    if isinstance(x, pd.Series):
        return ([norm(v) for v in x.index], [norm(v) for v in x], x.name, str(x.dtype))
    if isinstance(x, ft.feature_base.FeatureBase):
        return feature_state(x)
    if isinstance(x, dict):
        return {repr(k): obj_state(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [obj_state(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, ft.EntitySet):
        return es_state(x)
    if hasattr(x, "tolist"):
        return [norm(v) for v in x.tolist()]
    return repr(x)
