"""C19: every built-in primitive computes its documented function on every series, with every parameter."""
import datetime as dt
import math
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from .. import ref
from ..common import norm, same
from ..ref import isnull, nn

CASES = {"quick": 800, "thorough": 30000}
RULE = ("all built-in primitives with random parameters on random series (int, float, bool, nullable bool, text, category, datetime, tuple "
        "values; missing, all missing, infinite, repeated, single, empty; any index labels, any order); monitors: the result equals the documented function computed "
        "value by value, the same when called again, from another instance or through __call__, under other index labels and (aggregations without an "
        "order) in another order; arguments unchanged; results as long as the input; plus primitives made by make_agg_primitive / "
        "make_trans_primitive; distinct = calls")
NEED = {"calls": 20000, "cells": 80000, "with_missing": 5000, "all_missing": 400, "empty": 300, "single": 1000, "category": 300, "permuted": 3000,
        "relabelled": 10000, "made": 500, "units": 800, "infinite": 300, "antipodal": 60}
UNITS = {"years": 31540000, "months": 2628000, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 0.001, "nanoseconds": 0.000000001}


# ------------------------------------------------------------- values
def g_num(rng, n, nulls=True, inf=True):
    p = rng.choice([0, 0, 0.2, 0.6, 1.0]) if nulls else 0
    k = rng.choice(["small", "mix", "int", "big", "inf"] if inf else ["small", "mix", "int", "big"])
    if k == "int":
        return pd.Series([rng.randint(-6, 6) for _ in range(n)], dtype="int64")
    out = []
    for _ in range(n):
        if rng.random() < p:
            out.append(np.nan)
        elif k == "small":
            out.append(float(rng.randint(-3, 3)))
        elif k == "big":
            out.append(rng.choice([1e9, 1e9 + 1, -1e9, 1e-6, 3.25]))
        elif k == "inf" and rng.random() < 0.2:
            out.append(rng.choice([math.inf, -math.inf]))
        else:
            out.append(rng.choice([0.0, -0.0, rng.uniform(-50, 50), 2.5]))
    return pd.Series(out, dtype="float64")


def g_finite(rng, n):
    return g_num(rng, n, inf=False)


def g_bool(rng, n):
    return pd.Series([rng.random() < rng.choice([0.2, 0.5, 0.9]) for _ in range(n)], dtype=bool)


def g_boolnull(rng, n):
    if rng.random() < 0.5:
        return g_bool(rng, n)
    m = rng.choice([None, np.nan])
    return pd.Series([m if rng.random() < 0.4 else rng.random() < 0.5 for _ in range(n)], dtype=object)


def g_cat(rng, n):
    k = rng.choice(["str", "int", "float", "category", "bool"])
    pool = {"str": ["a", "b", "", "A", "b ", "é"], "int": [3, 1, 7, -2], "float": [1.5, 2.0, -3.0], "category": ["x", "y", "z"], "bool": [True, False]}[k]
    p = rng.choice([0, 0, 0.2, 0.6, 1.0])
    if k == "int":
        return pd.Series([rng.choice(pool) for _ in range(n)], dtype="int64")
    if k == "bool":
        return pd.Series([rng.choice(pool) for _ in range(n)], dtype=bool)
    vals = [(np.nan if k == "float" else rng.choice([None, np.nan])) if rng.random() < p else rng.choice(pool) for _ in range(n)]
    if k == "float":
        return pd.Series(vals, dtype=float)
    if k == "category":
        cats = list(pool) + ["unused"]
        rng.shuffle(cats)
        return pd.Series(pd.Categorical(vals, categories=cats))
    return pd.Series(vals, dtype=object)


def g_text(rng, n):
    p = rng.choice([0, 0.2, 1.0])
    return pd.Series([rng.choice([None, np.nan]) if rng.random() < p else rng.choice(["", " ", "one", "two words", "a  b", "tab\tnew\nline", "日本 語", "x" * 50, "don't stop. now!"])
                      for _ in range(n)], dtype=object)


def g_dt(rng, n, nulls=True):
    p = rng.choice([0, 0, 0.2, 0.6, 1.0]) if nulls else 0
    base = rng.choice(["2020-02-28 23:59:59", "1969-12-31 23:00:00", "2015-12-27", "2019-06-01 12:30:15.123456789", "1901-01-01"])
    step = rng.choice(["s", "min", "h", "D", "W"])
    out = []
    for _ in range(n):
        t = pd.Timestamp(base) + rng.randint(-40, 400) * pd.Timedelta(1, {"W": "W", "s": "s", "min": "min", "h": "h", "D": "D"}[step])
        if rng.random() < 0.15 and out:
            t = out[-1]
        out.append(pd.NaT if rng.random() < p else t)
    return pd.Series(out, dtype="datetime64[ns]")


def g_time(rng, n):
    return g_dt(rng, n, nulls=rng.random() < 0.3)


def g_latlong(rng, n):
    def one():
        if rng.random() < 0.15:
            return rng.choice([(np.nan, np.nan), np.nan])
        return (rng.choice([0.0, 90.0, -90.0, round(rng.uniform(-90, 90), 3)]), rng.choice([0.0, 180.0, -180.0, round(rng.uniform(-180, 180), 3)]))
    return pd.Series([one() for _ in range(n)], dtype=object)


# ------------------------------------------------------------- references
def lists(s):
    return [None if norm(v) is None else v for v in s]


def unit_of(u):
    return UNITS[u]


def r_entropy(v, dropna=False, base=None):
    xs = [norm(x) for x in v if not dropna or not isnull(x)]
    if not xs:
        return ("any",)
    n = len(xs)
    e = -math.fsum(c / n * math.log(c / n) for c in (xs.count(x) for x in set(xs)))
    return e if base is None else e / math.log(base)


def r_nmost(v, n):
    xs = nn(v)
    counts = {}
    for x in xs:
        counts[norm(x)] = counts.get(norm(x), 0) + 1
    return ("nmost", counts, n)


def r_mode(v):
    xs = nn(v)
    if not xs:
        return None
    counts = {}
    for x in xs:
        counts[norm(x)] = counts.get(norm(x), 0) + 1
    m = max(counts.values())
    return ("oneof", {k for k, c in counts.items() if c == m})


def scale(x, u):
    return None if x is None else x / unit_of(u)


def r_haversine(a, b, unit):
    if isinstance(a, float) or isinstance(b, float) or a is None or b is None or any(isnull(x) for x in a + b):
        return None
    la1, lo1, la2, lo2 = [math.radians(x) for x in a + b]
    # the spherical angle by the (robust) arctangent formula
    x = math.cos(la2) * math.sin(lo2 - lo1)
    y = math.cos(la1) * math.sin(la2) - math.sin(la1) * math.cos(la2) * math.cos(lo2 - lo1)
    z = math.sin(la1) * math.sin(la2) + math.cos(la1) * math.cos(la2) * math.cos(lo2 - lo1)
    return math.atan2(math.hypot(x, y), z) * (3958.7613 if unit == "miles" else 6371.0088)


def std(v):
    """as documented: relative to n"""
    v = [float(x) for x in nn(v)]
    if not v:
        return None
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def r_trend(y, x):
    return ref.a_trend(None, y, x)


def cmp2(f):
    return lambda a, b: [False if isnull(x) or isnull(y) else bool(f(x, y)) for x, y in zip(a, b)]


def num2(f):
    def g(a, b):
        out = []
        for x, y in zip(a, b):
            if isnull(x) or isnull(y):
                out.append(None)
            else:
                r = f(float(x), float(y))
                out.append(None if r is None or isinstance(r, float) and math.isnan(r) else r)
        return out
    return g


def r_equal(a, b, yes):
    # two missing values: left open (None equals None, NaN does not)
    return [("any",) if isnull(x) and isnull(y) else (not isnull(x) and not isnull(y) and norm(x) == norm(y)) == yes for x, y in zip(a, b)]


def mod(a, b):
    if math.isinf(a) or b == 0:
        return None
    if math.isinf(b):
        return ("any",)
    return a % b


def sub(a, b):
    return a - b


AGGS = [  # class, params, inputs, reference(lists, T, params), keeps its value in another order
    (P.Count, {}, [g_cat], lambda T, v: float(len(nn(v))), True),
    (P.Sum, {}, [g_num], lambda T, v: ref.a_sum(T, v), True),
    (P.Mean, {}, [g_num], lambda T, v: ref.a_mean(T, v), True),
    (P.Mean, {"skipna": [False]}, [g_num], lambda T, v, skipna: None if len(nn(v)) < len(v) else ref.a_mean(T, v), True),
    (P.Min, {}, [g_num], lambda T, v: ref.a_min(T, v), True),
    (P.Max, {}, [g_num], lambda T, v: ref.a_max(T, v), True),
    (P.Median, {}, [g_finite], lambda T, v: ref.a_median(T, v), True),
    (P.Std, {}, [g_finite], lambda T, v: std(v), True),
    (P.Skew, {}, [g_finite], lambda T, v: ref.a_skew(T, v), True),
    (P.Mode, {}, [g_cat], lambda T, v: r_mode(v), True),
    (P.NumUnique, {}, [g_cat], lambda T, v: float(len({norm(x) for x in nn(v)})), True),
    (P.NMostCommon, {"n": [1, 2, 3, 5]}, [g_cat], lambda T, v, n: r_nmost(v, n), False),
    (P.NumTrue, {}, [g_boolnull], lambda T, v: float(sum(bool(x) for x in nn(v))), True),
    (P.PercentTrue, {}, [g_boolnull], lambda T, v: sum(bool(x) for x in nn(v)) / len(v) if v else ("any",), True),
    (P.Any, {}, [g_boolnull], lambda T, v: any(bool(x) for x in nn(v)), True),
    (P.All, {}, [g_boolnull], lambda T, v: all(bool(x) for x in nn(v)), True),
    (P.First, {}, [g_cat], lambda T, v: v[0], False),
    (P.Last, {}, [g_cat], lambda T, v: v[-1], False),
    (P.Entropy, {"dropna": [False, True], "base": [None, 2, 10]}, [g_cat], lambda T, v, dropna, base: r_entropy(v, dropna, base), True),
    (P.AvgTimeBetween, {"unit": list(UNITS)}, [g_dt], lambda T, v, unit: scale(ref.a_avg_time_between(T, v), unit), True),
    (P.TimeSinceLast, {"unit": list(UNITS)}, [g_time], lambda T, v, unit: scale(ref.a_time_since_last(T, v), unit), False),
    (P.TimeSinceFirst, {"unit": list(UNITS)}, [g_time], lambda T, v, unit: scale(ref.a_time_since_first(T, v), unit), False),
    (P.Trend, {}, [g_finite, g_dt], lambda T, y, x: r_trend(y, x), False),
]
nb = lambda f: lambda T, v, **k: [None if isnull(x) else f(x, **k) for x in v]
SC = {"value": [-1, 0, 1, 2.5, 7]}
SC1 = {"value": [-1, 1, 2.5, 7]}
date = lambda x: dt.date(x.year, x.month, x.day)
TRANS = [
    (P.IsNull, {}, [g_cat], lambda T, v: [isnull(x) for x in v]),
    (P.Absolute, {}, [g_num], nb(abs)),
    (P.Negate, {}, [g_num], nb(lambda x: -x)),
    (P.Not, {}, [g_bool], lambda T, v: [not x for x in v]),
    (P.And, {}, [g_bool, g_bool], lambda T, a, b: [bool(x) and bool(y) for x, y in zip(a, b)]),
    (P.Or, {}, [g_bool, g_bool], lambda T, a, b: [bool(x) or bool(y) for x, y in zip(a, b)]),
    (P.MultiplyBoolean, {}, [g_bool, g_bool], lambda T, a, b: [bool(x) and bool(y) for x, y in zip(a, b)]),
    (P.AddNumeric, {}, [g_num, g_num], lambda T, a, b: num2(lambda x, y: x + y)(a, b)),
    (P.SubtractNumeric, {"commutative": [True, False]}, [g_num, g_num], lambda T, a, b, commutative: num2(sub)(a, b)),
    (P.MultiplyNumeric, {}, [g_num, g_num], lambda T, a, b: num2(lambda x, y: x * y)(a, b)),
    (P.DivideNumeric, {"commutative": [True, False]}, [g_finite, g_finite], lambda T, a, b, commutative: num2(lambda x, y: ref._div(x, y))(a, b)),
    (P.ModuloNumeric, {}, [g_finite, g_finite], lambda T, a, b: num2(mod)(a, b)),
    (P.AddNumericScalar, SC, [g_num], lambda T, v, value: num2(lambda x, y: x + y)(v, [value] * len(v))),
    (P.SubtractNumericScalar, SC, [g_num], lambda T, v, value: num2(sub)(v, [value] * len(v))),
    (P.ScalarSubtractNumericFeature, SC, [g_num], lambda T, v, value: num2(sub)([value] * len(v), v)),
    (P.MultiplyNumericScalar, SC, [g_num], lambda T, v, value: num2(lambda x, y: x * y)(v, [value] * len(v))),
    (P.DivideNumericScalar, SC1, [g_num], lambda T, v, value: num2(lambda x, y: x / y)(v, [value] * len(v))),
    (P.DivideByFeature, SC1, [g_finite], lambda T, v, value: num2(lambda x, y: ref._div(x, y))([value] * len(v), v)),
    (P.ModuloNumericScalar, SC1, [g_num], lambda T, v, value: num2(mod)(v, [value] * len(v))),
    (P.ModuloByFeature, SC1, [g_finite], lambda T, v, value: num2(mod)([value] * len(v), v)),
    (P.GreaterThan, {}, [g_num, g_num], lambda T, a, b: cmp2(lambda x, y: x > y)(a, b)),
    (P.GreaterThanEqualTo, {}, [g_num, g_num], lambda T, a, b: cmp2(lambda x, y: x >= y)(a, b)),
    (P.LessThan, {}, [g_num, g_num], lambda T, a, b: cmp2(lambda x, y: x < y)(a, b)),
    (P.LessThanEqualTo, {}, [g_num, g_num], lambda T, a, b: cmp2(lambda x, y: x <= y)(a, b)),
    (P.GreaterThan, {}, [g_dt, g_dt], lambda T, a, b: cmp2(lambda x, y: x > y)(a, b)),
    (P.LessThanEqualTo, {}, [g_dt, g_dt], lambda T, a, b: cmp2(lambda x, y: x <= y)(a, b)),
    (P.GreaterThanScalar, SC, [g_num], lambda T, v, value: cmp2(lambda x, y: x > y)(v, [value] * len(v))),
    (P.GreaterThanEqualToScalar, SC, [g_num], lambda T, v, value: cmp2(lambda x, y: x >= y)(v, [value] * len(v))),
    (P.LessThanScalar, SC, [g_num], lambda T, v, value: cmp2(lambda x, y: x < y)(v, [value] * len(v))),
    (P.LessThanEqualToScalar, SC, [g_num], lambda T, v, value: cmp2(lambda x, y: x <= y)(v, [value] * len(v))),
    (P.Equal, {}, ["pair", None], lambda T, a, b: r_equal(a, b, True)),
    (P.NotEqual, {}, ["pair", None], lambda T, a, b: r_equal(a, b, False)),
    (P.EqualScalar, {"value": ["a", 3, 1.5, "x", "nobody"]}, [g_cat], lambda T, v, value: [not isnull(x) and norm(x) == norm(value) for x in v]),
    (P.NotEqualScalar, {"value": ["a", 3, 1.5, "x", "nobody"]}, [g_cat], lambda T, v, value: [isnull(x) or norm(x) != norm(value) for x in v]),
    (P.IsIn, {"list_of_outputs": [["a", "b"], [3, 7], [], None, ["x"]]}, [g_cat],
     lambda T, v, list_of_outputs: [not isnull(x) and norm(x) in {norm(y) for y in list_of_outputs or []} for x in v]),
    (P.Year, {}, [g_dt], nb(lambda x: x.year)),
    (P.Month, {}, [g_dt], nb(lambda x: x.month)),
    (P.Day, {}, [g_dt], nb(lambda x: x.day)),
    (P.Hour, {}, [g_dt], nb(lambda x: x.hour)),
    (P.Minute, {}, [g_dt], nb(lambda x: x.minute)),
    (P.Second, {}, [g_dt], nb(lambda x: x.second)),
    (P.Week, {}, [g_dt], nb(lambda x: date(x).isocalendar()[1])),
    (P.Weekday, {}, [g_dt], nb(lambda x: date(x).weekday())),
    (P.IsWeekend, {}, [g_dt], lambda T, v: [False if isnull(x) else date(x).weekday() >= 5 for x in v]),
    (P.TimeSince, {"unit": list(UNITS)}, [g_dt], lambda T, v, unit: [None if isnull(x) else (T - x).total_seconds() / UNITS[unit] for x in v]),
    (P.TimeSincePrevious, {"unit": list(UNITS)}, [g_dt], lambda T, v, unit: [scale(x, unit) for x in ref.s_time_since_previous(v)]),
    (P.Age, {}, [g_dt], lambda T, v: [None if isnull(x) else ((T - x) // pd.Timedelta(days=1)) / 365.0 for x in v]),
    (P.NumCharacters, {}, [g_text], lambda T, v: [0 if isnull(x) else len(x) for x in v]),
    (P.NumWords, {}, [g_text], lambda T, v: [1 if isnull(x) else x.count(" ") + 1 for x in v]),
    (P.Diff, {}, [g_finite], lambda T, v: ref.s_diff(v)),
    (P.CumSum, {}, [g_finite], lambda T, v: ref.s_cum_sum(v)),
    (P.CumCount, {}, [g_cat], lambda T, v: ref.s_cum_count(v)),
    (P.CumMean, {}, [g_finite], lambda T, v: ref.s_cum_mean(v)),
    (P.CumMin, {}, [g_num], lambda T, v: ref.s_cum_min(v)),
    (P.CumMax, {}, [g_num], lambda T, v: ref.s_cum_max(v)),
    (P.Percentile, {}, [g_num], lambda T, v: ref.s_percentile(v)),
    (P.Latitude, {}, [g_latlong], lambda T, v: [None if not isinstance(x, tuple) else x[0] for x in v]),
    (P.Longitude, {}, [g_latlong], lambda T, v: [None if not isinstance(x, tuple) else x[1] for x in v]),
    (P.Haversine, {"unit": ["miles", "kilometers"]}, ["latlong", None], lambda T, a, b, unit: [r_haversine(x, y, unit) for x, y in zip(a, b)]),
]


def ok(got, want, tol):
    if isinstance(want, tuple) and want and want[0] == "any":
        return True
    if isinstance(want, tuple) and want and want[0] == "oneof":
        return norm(got) in want[1]
    if isinstance(want, tuple) and want and want[0] == "nmost":
        _, counts, n = want
        vals = [got] if n == 1 else list(got)
        if len(vals) != n:
            return False
        real = [norm(x) for x in vals if norm(x) is not None]
        k = min(n, len(counts))
        if len(real) != k or len(set(real)) != k or any(norm(x) is not None for x in vals[k:]) or any(r not in counts for r in real):
            return False
        cs = [counts[r] for r in real]
        return cs == sorted(counts.values(), reverse=True)[:k]
    return same(got, want, tol, tol * 1e-2)


def inputs(rng, gens, n):
    if gens[0] == "pair":
        a = g_cat(rng, n)
        if rng.random() < 0.6:
            b = a.sample(frac=1, random_state=rng.randrange(10**6)).reset_index(drop=True)
            if str(b.dtype) == "category" and rng.random() < 0.5:
                b = b.cat.remove_unused_categories()
            if str(b.dtype) == "category" and rng.random() < 0.3:
                b = b.astype(object)
        else:
            b = g_cat(rng, n)
            if str(a.dtype) == "category" and str(b.dtype) == "category":
                pass
        return [a, b]
    if gens[0] == "latlong":
        a, b = g_latlong(rng, n), g_latlong(rng, n)
        for i in range(n):
            if rng.random() < 0.3 and isinstance(a[i], tuple) and not isnull(a[i][0]):
                la, lo = a[i]
                b[i] = (-la, lo - 180.0 if lo > 0 else lo + 180.0) if rng.random() < 0.7 else (la, lo)
        return [a, b]
    return [g(rng, n) for g in gens]


def case(rng, rec, tier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(18):
            agg(rng, rec, *rng.choice(AGGS))
        for _ in range(24):
            trans(rng, rec, *rng.choice(TRANS))
        for _ in range(2):
            made(rng, rec)


def prepare(rng, rec, cls, params, gens, minlen):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    n = max(n, minlen)
    kw = {}
    for k, vs in params.items():
        v = rng.choice(vs)
        if k == "unit" and rng.random() < 0.2 and cls is not P.Haversine:
            kw[k] = v.upper()
        elif rng.random() < 0.9 or k in ("skipna", "value", "list_of_outputs", "n"):
            kw[k] = v
    full = dict({"unit": "miles" if cls is P.Haversine else "seconds", "n": 3, "dropna": False, "base": None, "commutative": None}, **kw)
    full = {k: (full[k].lower() if k == "unit" else full[k]) for k in params}
    args = inputs(rng, gens, n)
    if "unit" in full:
        rec.event("units")
    if any(str(a.dtype) == "category" for a in args):
        rec.event("category")
    if any(a.isnull().any() for a in args):
        rec.event("with_missing")
    if n and any(a.isnull().all() for a in args):
        rec.event("all_missing")
    if any(a.dtype == float and np.isinf(a).any() for a in args):
        rec.event("infinite")
    rec.event("empty" if n == 0 else "single" if n == 1 else "several")
    # any labels
    labels = rng.choice([None, None, "perm", "str", "dup"])
    if labels:
        idx = {"perm": rng.sample(range(100), n), "str": ["r%d" % i for i in range(n)], "dup": [rng.choice([1, 2]) for _ in range(n)]}[labels]
        if labels == "dup" and len(gens) > 1:
            idx = rng.sample(range(100), n)
        args = [pd.Series(a.values, index=idx, name=rng.choice([None, "x"])) for a in args]
    T = pd.Timestamp("2021-05-05 05:05:05") + pd.Timedelta(rng.randint(-10**6, 10**6), "s")
    return kw, full, args, T


def freeze(args):
    return [(list(map(norm, a)), list(a.index), a.name, str(a.dtype)) for a in args]


def call(f, prim, args, T):
    return f(*args, time=T) if prim.uses_calc_time else f(*args)


def tolerance(cls):
    return 1e-6 if cls in (P.Trend, P.Skew, P.Std, P.Haversine) else 1e-9


def illcond(cls, args):
    """sums that cancel and the like: rounding alone decides"""
    if cls in (P.Std, P.Skew, P.Trend):
        v = [abs(float(x)) for x in args[0] if norm(x) is not None]
        return bool(v) and max(v) > 1e6
    return False


def agg(rng, rec, cls, params, gens, fn, symmetric):
    kw, full, args, T = prepare(rng, rec, cls, params, gens, 1)
    if illcond(cls, args):
        return
    prim = cls(**kw)
    f = prim.get_function()
    before = freeze(args)
    got = call(f, prim, args, T)
    want = fn(T, *[lists(a) for a in args], **full)
    info = lambda: "%s(%s) of %s at %s: %r, wanted %r" % (cls.__name__, kw, [(list(a), str(a.dtype)) for a in args], T, got, want)
    rec.event("calls")
    rec.event("cells")
    tol = tolerance(cls)
    big = max([abs(float(x)) for a in args if a.dtype == float for x in a if not isnull(x) and not math.isinf(x)] or [1])
    if cls in (P.Sum, P.Mean) and not isinstance(want, tuple) and want is not None and math.isfinite(want) and not isnull(got) and math.isfinite(got):
        good = abs(got - want) <= 1e-9 * max(big * len(args[0]), 1)
    else:
        good = ok(got, want, tol)
    if cls in (P.Skew,) and not good:
        # a spread that is all rounding
        v = nn(lists(args[0]))
        good = max(v) - min(v) < 1e-6
    if not rec.check(good, "value:" + cls.__name__, info):
        return
    rec.check(freeze(args) == before, "argument-changed:" + cls.__name__, info)
    twice(rng, rec, cls, kw, prim, f, args, T, got, tol, info)
    if symmetric and len(args[0]) > 1 and cls is not P.Mode:
        rec.event("permuted")
        p = rng.sample(range(len(args[0])), len(args[0]))
        other = call(f, prim, [a.iloc[p] for a in args], T)
        rec.check(same(other, got, 1e-6, 1e-6 * max(1, big)), "order:" + cls.__name__, lambda: "%s; in another order %r" % (info(), other))
    rec.nontrivial((cls.__name__, repr(kw), repr([list(a) for a in args])))


def twice(rng, rec, cls, kw, prim, f, args, T, got, tol, info):
    eq = lambda a, b: all(same(x, y, tol, tol) for x, y in zip(np.ravel(np.array(a, dtype=object)), np.ravel(np.array(b, dtype=object)))) \
        and np.shape(np.array(a, dtype=object)) == np.shape(np.array(b, dtype=object))
    r = rng.randrange(3)
    if r == 0:
        other = call(f, prim, args, T)
    elif r == 1:
        other = call(cls(**kw).get_function(), prim, args, T)
    else:
        relabelled = [a.set_axis(range(500, 500 + len(a))) for a in args]
        rec.event("relabelled")
        other = call(prim, prim, relabelled, T)
    rec.check(eq(other, got), ("again", "another-instance", "call")[r] + ":" + cls.__name__, lambda: "%s; then %r" % (info(), other))


def trans(rng, rec, cls, params, gens, fn):
    kw, full, args, T = prepare(rng, rec, cls, params, gens, 0)
    n = len(args[0])
    prim = cls(**kw)
    f = prim.get_function()
    before = freeze(args)
    if n == 0 and any(a.dtype == object for a in args) and cls in (P.NumCharacters, P.NumWords, P.Latitude, P.Longitude):
        pass
    got = call(f, prim, args, T)
    want = fn(T, *[lists(a) for a in args], **full)
    vals = list(got)
    info = lambda: "%s(%s) of %s at %s: %r, wanted %r" % (cls.__name__, kw, [(list(a), str(a.dtype)) for a in args], T, vals, want)
    rec.event("calls")
    rec.event("cells", n)
    if not rec.check(len(vals) == n == len(want), "length:" + cls.__name__, info):
        return
    tol = tolerance(cls)
    if cls is P.Haversine:
        rec.event("antipodal", sum(w is not None and w / (3958.7613 if full["unit"] == "miles" else 6371.0088) > math.pi - 1e-6 for w in want))
        good = all((norm(g) is None) == (w is None) and (w is None or abs(g - w) < 1e-3) for g, w in zip(vals, want))
    elif cls in (P.CumSum, P.CumMean, P.Diff, P.AddNumeric, P.SubtractNumeric, P.ModuloNumeric, P.ModuloByFeature, P.ModuloNumericScalar):
        big = max([abs(float(x)) for a in args for x in a if not isnull(x) and not math.isinf(x)] or [1])
        good = all(ok(g, w, tol) or (w is not None and not isinstance(w, tuple) and norm(g) is not None and abs(g - w) <= 1e-9 * max(1, big) * max(n, 1)) for g, w in zip(vals, want))
    else:
        good = all(ok(g, w, tol) for g, w in zip(vals, want))
    if not rec.check(good, "value:" + cls.__name__, info):
        return
    if isinstance(got, pd.Series):
        rec.check(list(got.index) == list(args[0].index), "labels:" + cls.__name__, lambda: "%s labels %s" % (info(), list(got.index)))
    rec.check(freeze(args) == before, "argument-changed:" + cls.__name__, info)
    twice(rng, rec, cls, kw, prim, f, args, T, got, tol, info)
    rec.nontrivial((cls.__name__, repr(kw), repr([list(a) for a in args])))


# ------------------------------------------------------------- made primitives
def made(rng, rec):
    n = rng.randint(1, 6)
    k, c = rng.randint(-3, 3), rng.randint(1, 4)
    s = pd.Series([rng.uniform(-5, 5) for _ in range(n)])
    T = pd.Timestamp("2021-01-01")
    timed = rng.random() < 0.3
    rec.event("made")
    from featuretools.primitives import make_agg_primitive, make_trans_primitive
    attrs = {"default_value": k} if rng.random() < 0.5 else {}
    name = rng.choice([None, "mine"])
    if rng.random() < 0.5:
        if timed:
            def weigh(x, time=None, k=1):
                return x.sum() * k + time.year
        else:
            def weigh(x, k=1):
                return x.sum() * k
        kwn = {"name": name} if name else {}
        cls = make_agg_primitive(weigh, input_types=[vt.Numeric], return_type=vt.Numeric, cls_attributes=attrs, uses_calc_time=timed, description="d",
                                 stack_on_self=False, **kwn)
        rec.check(cls.stack_on_self is False and cls.name == (name or "weigh") and cls.default_value is (k if attrs else cls.default_value), "made-attributes", "")
        want = lambda q: s.sum() * q + (2021 if timed else 0)
    else:
        if timed:
            def weigh(x, time=None, k=1):
                return x * k + time.year
        else:
            def weigh(x, k=1):
                return x * k
        kwn = {"name": name} if name else {}
        cls = make_trans_primitive(weigh, input_types=[vt.Numeric], return_type=vt.Numeric, cls_attributes=attrs, uses_calc_time=timed, **kwn)
        want = lambda q: list(s * q + (2021 if timed else 0))
    rec.check(bool(cls.uses_calc_time) == timed and cls.input_types == [vt.Numeric] and cls.return_type is vt.Numeric, "made-attributes", "")
    # instances with different arguments do not disturb each other
    ps = [cls(), cls(k=k), cls(k=c)]
    fs = [p.get_function() for p in ps]
    order = [0, 1, 2]
    rng.shuffle(order)
    for i in order:
        q = [1, k, c][i]
        got = fs[i](s, time=T) if timed else fs[i](s)
        got = list(got) if hasattr(got, "__len__") else got
        w = want(q)
        rec.check(same(tuple(got), tuple(w)) if isinstance(w, list) else same(got, w), "made-value", lambda: "%s with k=%s: %r wanted %r" % (weigh, q, got, w))
    args = [dict(p.get_arguments()).get("k") for p in ps]
    rec.check(args[1] == (None if k == 1 else k) or args[1] == k, "made-arguments", lambda: "%s" % args)


def finish(rec, tier, seed):
    # the same definition in a feature matrix
    es = ft.EntitySet("es")
    es.entity_from_dataframe("p", pd.DataFrame({"id": [0]}), index="id")
    es.entity_from_dataframe("c", pd.DataFrame({"id": range(5), "pid": [0] * 5, "v": [1.0, 2, 3, 4, 5]}), index="id")
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["pid"]))
    f = ft.Feature(es["c"]["v"], parent_entity=es["p"], primitive=P.Std)
    got = ft.calculate_feature_matrix([f], es).iloc[0, 0]
    rec.check(same(got, math.sqrt(2)), "std-in-matrix", lambda: "STD of 1..5 is documented as 1.414 (and so is Std()([1, 2, 3, 4, 5])), in a feature matrix it is %r" % got)
