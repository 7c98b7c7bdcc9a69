"""Workloads for deep feature synthesis: worlds with rich variable types and random requests."""
import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from . import gen

KINDS = ("num", "num", "int", "bool", "bool", "cat", "ord", "dt", "text", "zip", "latlong", "dob")


def all_prims():
    from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
    from featuretools.utils.gen_utils import Library
    agg = {k: v for k, v in get_aggregation_primitives().items() if Library.PANDAS in v.compatibility}
    tr = {k: v for k, v in get_transform_primitives().items() if Library.PANDAS in v.compatibility}
    return agg, tr


def world(rng, n_tables=None, **kw):
    kw.setdefault("kinds", KINDS)
    return gen.gen_world(rng, n_tables=n_tables or rng.choice([1, 2, 3, 3, 4]), **kw)


def load(rng, w, lti=False, interesting=0.5):
    es = gen.build_es(w, lti=lti)
    iv = {}
    for n, t in w.tables.items():
        for c, k in t.kinds.items():
            if k in ("cat", "ord", "int", "bool") and rng.random() < interesting * 0.5:
                vals = sorted({r[c] for r in t.rows if r[c] is not None}, key=repr)[:2]
                if vals:
                    es[n][c].interesting_values = vals
                    iv[(n, c)] = vals
    return es, iv


def is_tree(w):
    """each pair of tables is joined by at most one path (ignoring direction)"""
    seen = {n: {n} for n in w.tables}
    for p, c, _ in w.rels:
        if seen[p] & seen[c]:
            return False
        u = seen[p] | seen[c]
        for n in u:
            seen[n] = u
    return True


def spell(rng, prims, parametrised=True):
    """Names, classes or instances of primitives, mixed."""
    out = []
    for name, cls in prims:
        r = rng.random()
        if r < 0.4:
            out.append(name if rng.random() < 0.7 else name.upper())
        elif r < 0.7:
            out.append(cls)
        else:
            out.append(cls())
    return out


PARAMS = {"n_most_common": lambda rng: P.NMostCommon(n=rng.choice([2, 4])),
          "trend": lambda rng: P.Trend(), "avg_time_between": lambda rng: P.AvgTimeBetween(unit=rng.choice(["hours", "days"])),
          "isin": lambda rng: P.IsIn(list_of_outputs=["alpha", "beta", 1]),
          "multiply_numeric_scalar": lambda rng: P.MultiplyNumericScalar(rng.choice([2, 3])),
          "equal_scalar": lambda rng: P.EqualScalar("alpha"),
          "subtract_numeric": lambda rng: P.SubtractNumeric(commutative=rng.random() < 0.5),
          "std": lambda rng: P.Std(), "time_since": lambda rng: P.TimeSince(unit="hours")}


def request(rng, w, es, target, max_depth=None, n_agg=(1, 4), n_tr=(0, 3), options=False):
    agg, tr = all_prims()
    if w.time_kind == "numeric":      # features of the time elapsed need a cutoff which is a date
        agg, tr = ({k: v for k, v in x.items() if not v.uses_calc_time} for x in (agg, tr))
    a = rng.sample(sorted(agg.items()), rng.randint(*n_agg))
    t = rng.sample(sorted(tr.items()), rng.randint(*n_tr))
    g = rng.sample(sorted((k, v) for k, v in tr.items() if k.startswith(("cum_", "diff", "percentile", "time_since_previous"))),
                   rng.choice([0, 0, 1, 2]))
    wh = rng.sample([x for x in a], rng.randint(0, min(2, len(a))))

    max_depth = max_depth if max_depth is not None else rng.choice([1, 2, 2, 3])
    if max_depth > 2 or max_depth < 0:      # keep the number of features within reason
        a, g, wh = a[:2], g[:1], wh[:1]
        t = [x for x in t if len(x[1].input_types) == 1][:1]

    def sp(ps):
        out = spell(rng, ps)
        return [PARAMS[n](rng) if n in PARAMS and rng.random() < 0.5 else o for (n, _), o in zip(ps, out)]
    return dict(entityset=es, target_entity=target, agg_primitives=sp(a), trans_primitives=sp(t), groupby_trans_primitives=sp(g),
                where_primitives=spell(rng, wh), max_depth=max_depth,
                return_variable_types="all", features_only=True)


def prim_classes(ps):
    """the primitive instances a list of names/classes/instances stands for"""
    agg, tr = all_prims()
    out = []
    for p in ps:
        if isinstance(p, str):
            p = agg.get(p.lower()) or tr.get(p.lower())
        if isinstance(p, type):
            p = p()
        out.append(p)
    return out


# ------------------------------------------------------------- stacking rules
def stacks(prim, f):
    """may an aggregation with this primitive take feature f as input?"""
    q = f.primitive
    if f.number_output_features > 1:
        return "whole-multi-output-input"
    same = isinstance(q, type(prim))
    if prim.stack_on_self is False and same:
        return "stack_on_self"
    if prim.stack_on_exclude and isinstance(q, tuple(prim.stack_on_exclude)):
        return "stack_on_exclude"
    if q.base_of_exclude and type(prim) in q.base_of_exclude:
        return "base_of_exclude"
    if prim.stack_on_self is True and same:
        return None
    if prim.stack_on is None or isinstance(q, tuple(prim.stack_on)):
        return None
    if q.base_of is None or type(prim) in q.base_of:
        return None
    return "neither stack_on nor base_of"


class Stacking:
    """other stacking rules for some of the requested primitives, while it is entered"""

    def __init__(self, rng, a):
        agg = [type(p) for p in prim_classes(a["agg_primitives"])]
        inner = agg + [type(p) for p in prim_classes(a["trans_primitives"] + a["groupby_trans_primitives"])]
        agg = list(dict.fromkeys(agg))
        inner = list(dict.fromkeys(inner))
        self.set = {}
        for c in rng.sample(inner, min(len(inner), rng.randint(1, 4))):
            d = {}
            few = lambda cs: rng.sample(cs, rng.randint(0, min(3, len(cs))))  # noqa
            if c in agg:
                d["stack_on_self"] = rng.random() < 0.5
                d["stack_on"] = rng.choice([None, few(inner), few(inner)])
                d["stack_on_exclude"] = rng.choice([None, None, few(inner)])
            d["base_of"] = rng.choice([None, few(agg), few(agg)])
            d["base_of_exclude"] = rng.choice([None, None, few(agg)])
            self.set[c] = d
        self.old = []

    def __enter__(self):
        for c, d in self.set.items():
            for k, v in d.items():
                self.old.append((c, k, k in c.__dict__, c.__dict__.get(k)))
                setattr(c, k, v)
        return self

    def __exit__(self, *exc):
        for c, k, had, v in reversed(self.old):
            if had:
                setattr(c, k, v)
            else:
                delattr(c, k)
        self.old = []

    def __repr__(self):
        return repr({c.__name__: {k: v if v is None or isinstance(v, bool) else [x.__name__ for x in v] for k, v in d.items()}
                     for c, d in self.set.items()})
