"""Feature ASTs and an independent, row-at-a-time evaluator of their meaning.

Nothing here calls featuretools to compute a value; `to_ft` builds the
corresponding feature object through the public constructors."""
import datetime as _dt
import math

import pandas as pd
from dateutil.relativedelta import relativedelta

import featuretools as ft
from featuretools import primitives as P

NUM, BOOL, CAT, DT, ORD, TEXT, ANY = "num", "bool", "cat", "dt", "ord", "text", "any"
NBOOL = "bool or missing"       # wanted by what counts missing ones as not true


# ------------------------------------------------------------------ helpers
def fsum(vals):
    vals = list(vals)
    try:
        return math.fsum(vals)
    except (ValueError, OverflowError):    # infinities on the way
        return float(sum(vals))


def isnull(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NaT


def nn(vals):
    return [v for v in vals if not isnull(v)]


def mean(v):
    return fsum(v) / len(v) if v else None


def finite(*vs):
    return all(not isinstance(v, float) or math.isfinite(v) for v in vs)


# ------------------------------------------------- aggregation primitives
def a_count(T, ids):
    return float(len(nn(ids)))


def a_sum(T, v):
    return fsum(nn(v))


def a_mean(T, v):
    return mean(nn(v))


def a_min(T, v):
    v = nn(v)
    return min(v) if v else None


def a_max(T, v):
    v = nn(v)
    return max(v) if v else None


def a_median(T, v):
    v = sorted(nn(v))
    if not v:
        return None
    n = len(v)
    return float(v[n // 2]) if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2.0


def a_std(T, v):
    v = [float(x) for x in nn(v)]
    if len(v) < 2:
        return None
    m = mean(v)
    return math.sqrt(fsum((x - m) * (x - m) for x in v) / (len(v) - 1))


def a_skew(T, v):
    v = [float(x) for x in nn(v)]
    n = len(v)
    if n < 3:
        return None
    m = mean(v)
    m2 = fsum((x - m) * (x - m) for x in v)
    m3 = fsum((x - m) * (x - m) * (x - m) for x in v)
    if abs(m2) < 1e-14:
        return 0.0
    return (n * math.sqrt(n - 1) / (n - 2)) * (m3 / (m2 * math.sqrt(m2)))


def a_num_unique(T, v):
    return float(len(set(nn(v))))


def a_mode(T, v):
    v = nn(v)
    if not v:
        return None
    c = {}
    for x in v:
        c[x] = c.get(x, 0) + 1
    top = max(c.values())
    return min(x for x, k in c.items() if k == top)


def a_num_true(T, v):
    return float(sum(1 for x in nn(v) if x))


def a_percent_true(T, v):
    return sum(1 for x in nn(v) if x) / float(len(v))


def a_first(T, v):
    return v[0]


def a_last(T, v):
    return v[-1]


def a_any(T, v):
    return any(bool(x) for x in v)


def a_all(T, v):
    return all(bool(x) for x in v)


def a_entropy(T, v):
    c = {}
    for x in v:
        k = None if isnull(x) else x
        c[k] = c.get(k, 0) + 1
    n = float(len(v))
    return -fsum((k / n) * math.log(k / n) for k in c.values()) if n else None


def secs(td):
    return td.total_seconds()


def a_time_since_last(T, v):
    return None if isnull(v[-1]) else secs(T - v[-1])


def a_time_since_first(T, v):
    return None if isnull(v[0]) else secs(T - v[0])


def a_avg_time_between(T, v):
    v = nn(v)
    if len(v) < 2:
        return None
    return secs(max(v) - min(v)) / (len(v) - 1)


def a_trend(T, y, x):
    pts = [(a, b) for a, b in zip(x, y) if not isnull(a) and not isnull(b)]
    if len(pts) <= 2:
        return None
    first = pts[0][0]
    sec = int(first.value * 1e-9)
    div = 1
    for d in (86400, 3600, 60):
        if sec % d == 0:
            div = d
            break
    base = pts[0][0]
    xs = [secs(p[0] - base) / div for p in pts]
    ys = [float(p[1]) for p in pts]
    mx, my = mean(xs), mean(ys)
    sxx = fsum((a - mx) * (a - mx) for a in xs)
    if len(set(xs)) == 1:
        return 0.0
    return fsum((a - mx) * (b - my) for a, b in zip(xs, ys)) / sxx


# primitives of our own, with two inputs
class MySumIf(P.AggregationPrimitive):
    name = "my_sum_if"
    input_types = [ft.variable_types.Numeric, ft.variable_types.Boolean]
    return_type = ft.variable_types.Numeric
    default_value = 0

    def get_function(self, agg_type=None):
        return lambda x, b: x[b.astype(bool)].sum()


class MySpread(P.AggregationPrimitive):
    name = "my_spread"
    input_types = [ft.variable_types.Numeric, ft.variable_types.Numeric]
    return_type = ft.variable_types.Numeric

    def get_function(self, agg_type=None):
        return lambda x, y: x.max() - y.min()


def a_spread(T, x, y):
    x, y = a_max(T, x), a_min(T, y)
    return None if x is None or y is None else x - y


# name -> (input kinds, output kind ('same' = of first input), fn, default, ft class)
AGG = {
    "count": (("index",), NUM, a_count, 0.0, P.Count),
    "sum": ((NUM,), NUM, a_sum, 0.0, P.Sum),
    "mean": ((NUM,), NUM, a_mean, None, P.Mean),
    "min": ((NUM,), NUM, a_min, None, P.Min),
    "max": ((NUM,), NUM, a_max, None, P.Max),
    "median": ((NUM,), NUM, a_median, None, P.Median),
    "std": ((NUM,), NUM, a_std, None, P.Std),
    "skew": ((NUM,), NUM, a_skew, None, P.Skew),
    "num_unique": ((CAT,), NUM, a_num_unique, None, P.NumUnique),
    "mode": ((CAT,), "same", a_mode, None, P.Mode),
    "num_true": ((NBOOL,), NUM, a_num_true, 0.0, P.NumTrue),
    "percent_true": ((NBOOL,), NUM, a_percent_true, 0.0, P.PercentTrue),
    "first": ((ANY,), "same", a_first, None, P.First),
    "last": ((ANY,), "same", a_last, None, P.Last),
    "any": ((BOOL,), BOOL, a_any, None, P.Any),
    "all": ((BOOL,), BOOL, a_all, None, P.All),
    "entropy": ((CAT,), NUM, a_entropy, None, P.Entropy),
    "time_since_last": (("time",), NUM, a_time_since_last, None, P.TimeSinceLast),
    "time_since_first": (("time",), NUM, a_time_since_first, None, P.TimeSinceFirst),
    "avg_time_between": (("time",), NUM, a_avg_time_between, None, P.AvgTimeBetween),
    "trend": ((NUM, "time"), NUM, a_trend, None, P.Trend),
    "my_sum_if": ((NUM, BOOL), NUM, lambda T, x, b: fsum(nn([v for v, c in zip(x, b) if c])), 0.0, MySumIf),
    "my_spread": ((NUM, NUM), NUM, a_spread, None, MySpread),
}
CUSTOM = [n for n in AGG if n.startswith("my_")]


# --------------------------------------------------- transform primitives
def _div(a, b):
    if isnull(a) or isnull(b):
        return None
    if b == 0:
        if a == 0:
            return None
        return math.copysign(float("inf"), a) * math.copysign(1.0, b)
    return a / b


def _mod(a, b):
    if isnull(a) or isnull(b) or b == 0 or not finite(a, b):
        return None
    return a - b * math.floor(a / b)


def _n2(f):
    return lambda T, a, b: None if isnull(a) or isnull(b) else f(a, b)


def _cmp(f):
    return lambda T, a, b: False if isnull(a) or isnull(b) else bool(f(a, b))


def _cmps(f):
    return lambda T, a, p: False if isnull(a) else bool(f(a, p))


def _n1(f):
    return lambda T, a: None if isnull(a) else f(a)


def _ns(f):
    return lambda T, a, p: None if isnull(a) else f(a, p)


# row-wise: name -> (input kinds, out kind, fn(T, *vals[, param]), class, needs param kind or None)
ROW = {
    "is_null": ((ANY,), BOOL, lambda T, a: isnull(a), P.IsNull, None),
    "absolute": ((NUM,), NUM, _n1(abs), P.Absolute, None),
    "negate": ((NUM,), NUM, _n1(lambda a: -a), P.Negate, None),
    "not": ((BOOL,), BOOL, lambda T, a: not a, P.Not, None),
    "and": ((BOOL, BOOL), BOOL, lambda T, a, b: bool(a) and bool(b), P.And, None),
    "or": ((BOOL, BOOL), BOOL, lambda T, a, b: bool(a) or bool(b), P.Or, None),
    "add_numeric": ((NUM, NUM), NUM, _n2(lambda a, b: a + b), P.AddNumeric, None),
    "subtract_numeric": ((NUM, NUM), NUM, _n2(lambda a, b: a - b), P.SubtractNumeric, None),
    "multiply_numeric": ((NUM, NUM), NUM, _n2(lambda a, b: a * b), P.MultiplyNumeric, None),
    "divide_numeric": ((NUM, NUM), NUM, lambda T, a, b: _div(a, b), P.DivideNumeric, None),
    "add_numeric_scalar": ((NUM,), NUM, _ns(lambda a, p: a + p), P.AddNumericScalar, NUM),
    "subtract_numeric_scalar": ((NUM,), NUM, _ns(lambda a, p: a - p), P.SubtractNumericScalar, NUM),
    "scalar_subtract_numeric_feature": ((NUM,), NUM, _ns(lambda a, p: p - a), P.ScalarSubtractNumericFeature, NUM),
    "multiply_numeric_scalar": ((NUM,), NUM, _ns(lambda a, p: a * p), P.MultiplyNumericScalar, NUM),
    "greater_than": ((NUM, NUM), BOOL, _cmp(lambda a, b: a > b), P.GreaterThan, None),
    "less_than_equal_to": ((NUM, NUM), BOOL, _cmp(lambda a, b: a <= b), P.LessThanEqualTo, None),
    "greater_than_scalar": ((NUM,), BOOL, _cmps(lambda a, p: a > p), P.GreaterThanScalar, NUM),
    "greater_than_equal_to_scalar": ((NUM,), BOOL, _cmps(lambda a, p: a >= p), P.GreaterThanEqualToScalar, NUM),
    "less_than_scalar": ((NUM,), BOOL, _cmps(lambda a, p: a < p), P.LessThanScalar, NUM),
    "less_than_equal_to_scalar": ((NUM,), BOOL, _cmps(lambda a, p: a <= p), P.LessThanEqualToScalar, NUM),
    "equal_scalar": ((CAT,), BOOL, _cmps(lambda a, p: a == p), P.EqualScalar, CAT),
    "not_equal_scalar": ((CAT,), BOOL, lambda T, a, p: True if isnull(a) else a != p, P.NotEqualScalar, CAT),
    "year": ((DT,), ORD, _n1(lambda a: a.year), P.Year, None),
    "month": ((DT,), ORD, _n1(lambda a: a.month), P.Month, None),
    "day": ((DT,), ORD, _n1(lambda a: a.day), P.Day, None),
    "hour": ((DT,), ORD, _n1(lambda a: a.hour), P.Hour, None),
    "minute": ((DT,), NUM, _n1(lambda a: a.minute), P.Minute, None),
    "second": ((DT,), NUM, _n1(lambda a: a.second), P.Second, None),
    "weekday": ((DT,), ORD, _n1(lambda a: _dt.date(a.year, a.month, a.day).weekday()), P.Weekday, None),
    "is_weekend": ((DT,), BOOL, lambda T, a: False if isnull(a) else _dt.date(a.year, a.month, a.day).weekday() >= 5,
                   P.IsWeekend, None),
    "week": ((DT,), ORD, _n1(lambda a: _dt.date(a.year, a.month, a.day).isocalendar()[1]), P.Week, None),
    "time_since": ((DT,), NUM, lambda T, a: None if isnull(a) else secs(T - a), P.TimeSince, None),
    "num_characters": ((TEXT,), NUM, lambda T, a: 0 if isnull(a) else len(a), P.NumCharacters, None),
    "num_words": ((TEXT,), NUM, lambda T, a: 1 if isnull(a) else a.count(" ") + 1, P.NumWords, None),
    "age": (("dob",), NUM, lambda T, a: None if isnull(a) else ((T - a) // pd.Timedelta(days=1)) / 365.0, P.Age, None),
}


# order-dependent over the whole (visible) entity, or over a group
def s_cum_sum(v):
    out, acc = [], []
    for x in v:
        if isnull(x):
            out.append(None)
        else:
            acc.append(x)
            out.append(fsum(acc))
    return out


def s_cum_count(v):
    return [float(i + 1) for i in range(len(v))]


def s_cum_mean(v):
    return [None if s is None else s / (i + 1) for i, s in enumerate(s_cum_sum(v))]


def s_cum_min(v):
    out, cur = [], None
    for x in v:
        if isnull(x):
            out.append(None)
        else:
            cur = x if cur is None or x < cur else cur
            out.append(cur)
    return out


def s_cum_max(v):
    out, cur = [], None
    for x in v:
        if isnull(x):
            out.append(None)
        else:
            cur = x if cur is None or x > cur else cur
            out.append(cur)
    return out


def s_diff(v):
    return [None if i == 0 or isnull(v[i]) or isnull(v[i - 1]) else v[i] - v[i - 1] for i in range(len(v))]


def s_percentile(v):
    xs = nn(v)
    n = len(xs)
    return [None if isnull(x) else (sum(1 for y in xs if y < x) + (sum(1 for y in xs if y == x) + 1) / 2.0) / n
            for x in v]


def s_time_since_previous(v):
    return [None if i == 0 or isnull(v[i]) or isnull(v[i - 1]) else secs(v[i] - v[i - 1]) for i in range(len(v))]


SEQ = {
    "cum_sum": ((NUM,), NUM, s_cum_sum, P.CumSum),
    "cum_count": ((CAT,), NUM, s_cum_count, P.CumCount),
    "cum_mean": ((NUM,), NUM, s_cum_mean, P.CumMean),
    "cum_min": ((NUM,), NUM, s_cum_min, P.CumMin),
    "cum_max": ((NUM,), NUM, s_cum_max, P.CumMax),
    "diff": ((NUM,), NUM, s_diff, P.Diff),
    "percentile": ((NUM,), NUM, s_percentile, P.Percentile),
    "time_since_previous": (("time",), NUM, s_time_since_previous, P.TimeSincePrevious),
}


DEFAULTS = {}       # default of transform primitives a check adds to ROW or SEQ
SLICE = {}          # which of a primitive's outputs a primitive added by a check stands for
TIMED = set()       # primitives added to SEQ which are given the cutoff time


# --------------------------------------------------------------------- AST
class F:
    """kind: value kind; nullable: may produce missing values (booleans that
    may be missing are never fed to boolean primitives)."""
    def __init__(self, op, entity, kind, nullable, **kw):
        self.op, self.entity, self.kind, self.nullable = op, entity, kind, nullable
        self.param = None
        self.__dict__.update(kw)
        self.depth = 1 + max([b.depth for b in self.deps()] or [-1])

    def deps(self):
        d = list(self.__dict__.get("bases", []))
        for k in ("where", "groupby"):
            if self.__dict__.get(k) is not None:
                d.append(self.__dict__[k])
        return d

    @property
    def default(self):
        if self.op == "agg":
            return AGG[self.prim][3]
        if self.op == "direct":
            return self.bases[0].default
        return DEFAULTS.get(self.__dict__.get("prim"))

    def text(self):
        if self.op == "id":
            return "%s.%s" % (self.entity, self.col)
        s = ",".join(b.text() for b in self.bases)
        if self.op == "direct":
            return "%s<-[%s](%s)" % (self.entity, self.fk, s)
        if self.op == "agg":
            return "%s@%s(%s|%s%s%s)" % (self.prim, self.entity, "/".join("%s.%s" % (c, k) for _, c, k in self.path), s,
                                         " WHERE " + self.where.text() if self.where else "",
                                         " LAST %s" % (self.use_previous,) if self.use_previous else "")
        if self.op == "group":
            return "%s(%s) BY %s" % (self.prim, s, self.groupby.text())
        return "%s(%s%s)" % (self.prim, s, "" if self.param is None else ";%r" % (self.param,))

    def walk(self):
        yield self
        for d in self.deps():
            for x in d.walk():
                yield x


def identity(w, entity, col):
    t = w.tables[entity]
    k = t.kinds[col]
    kind = {"num": NUM, "int": NUM, "bool": BOOL, "cat": CAT, "zip": CAT, "ord": ORD, "dt": DT, "text": TEXT,
            "index": "index", "fk": "fk", "time": "time", "sec": "sec", "latlong": "latlong", "dob": "dob"}[k]
    if k == "sec" and w.time_kind == "datetime":
        kind = DT
    if k == "sec" and w.time_kind == "numeric":
        kind = NUM
    masked = any(col in cs or col == s for s, cs in t.secondary.items())
    nullable = k in ("num", "cat", "dt", "text", "fk", "zip", "sec", "dob") or masked
    return F("id", entity, kind, nullable, col=col)


# ----------------------------------------------------------------- oracle
def parse_delta(td):
    """use_previous / training window as (value, unit) pairs -> something that
    can be subtracted from a Timestamp."""
    unit = {"ms": "milliseconds", "s": "seconds", "m": "minutes", "h": "hours", "d": "days", "w": "weeks"}
    out = relativedelta()
    fixed = pd.Timedelta(0)
    rel = False
    for value, u in td:
        if u in unit:
            fixed += pd.Timedelta(**{unit[u]: value})
        elif u == "mo":
            out += relativedelta(months=value)
            rel = True
        elif u == "Y":
            out += relativedelta(years=value)
            rel = True
        else:
            raise ValueError(u)
    return out, fixed, rel


def minus(T, td):
    out, fixed, rel = parse_delta(td)
    return (T - out if rel else T) - fixed


def last_times(w):
    """For each entity and row id: latest time of the row itself or of any row
    that transitively refers to it (None when there is none)."""
    res = {n: {} for n in w.tables}
    done = set()

    def visit(n):
        if n in done:
            return
        t = w.tables[n]
        cur = {r[t.index]: (r[t.time_index] if t.time_index else None) for r in t.rows}
        for p, c, col in w.rels:
            if p != n:
                continue
            visit(c)
            ct = w.tables[c]
            for r in ct.rows:
                k, v = r[col], res[c][r[ct.index]]
                if k in cur and v is not None and (cur[k] is None or v > cur[k]):
                    cur[k] = v
        res[n] = cur
        done.add(n)
    for n in w.tables:
        visit(n)
    return res


class Oracle:
    """Meaning of features at one cutoff."""

    def __init__(self, w, T, include=True, window=None, lti=None, sec_inclusive_mask=True):
        self.w, self.T, self.include, self.window = w, T, include, window
        self.lti = lti
        self.memo = {}
        self._rows = {}
        self.orphans = False    # also aggregate rows which refer to a row that is not visible (of no consequence)
        self.first_allowed = None if window is None else minus(T, window)

    def _in_window(self, t):
        if t is None:
            return False
        return t > self.first_allowed if self.include else t >= self.first_allowed

    def rows(self, entity):
        if entity in self._rows:
            return self._rows[entity]
        t = self.w.tables[entity]
        out = []
        for r in self.w.ordered_rows(entity):
            if t.time_index is not None:
                x = r[t.time_index]
                if not (x <= self.T if self.include else x < self.T):
                    continue
                if self.window is not None:
                    ok = self._in_window(x)
                    if not ok and self.lti is not None:
                        ok = self._in_window(self.lti[entity].get(r[t.index]))
                    if not ok:
                        continue
            if t.secondary:
                r = dict(r)
                for s, cs in t.secondary.items():
                    v = r[s]
                    if v is not None and v >= self.T:
                        for c in list(cs) + [s]:
                            r[c] = None
            out.append(r)
        self._rows[entity] = out
        return out

    def values(self, f):
        """{row id: value} over every visible row of f.entity."""
        key = id(f)
        if key in self.memo:
            return self.memo[key][1]
        t = self.w.tables[f.entity]
        rows = self.rows(f.entity)
        if f.op == "id":
            out = {r[t.index]: r[f.col] for r in rows}
        elif f.op == "direct":
            base = self.values(f.bases[0])
            out = {}
            for r in rows:
                v = base.get(r[f.fk])
                if isnull(v):
                    v = f.default
                out[r[t.index]] = v
        elif f.op == "row":
            fn = ROW[f.prim][2]
            bases = [self.values(b) for b in f.bases]
            extra = () if f.param is None else (f.param,)
            out = {r[t.index]: fn(self.T, *([b[r[t.index]] for b in bases] + list(extra))) for r in rows}
        elif f.op == "seq":
            bases = [self.values(b) for b in f.bases]
            ids = [r[t.index] for r in rows]
            out = dict(zip(ids, self._seq(f, bases, ids)))
        elif f.op == "group":
            bases = [self.values(b) for b in f.bases]
            g = self.values(f.groupby)
            groups = {}
            out = {}
            for r in rows:
                i = r[t.index]
                out[i] = f.default
                if not isnull(g[i]):
                    groups.setdefault(g[i], []).append(i)
            for ids in groups.values():
                out.update(zip(ids, self._seq(f, bases, ids)))
        elif f.op == "agg":
            out = self._agg(f, t, rows)
        else:
            raise ValueError(f.op)
        self.memo[key] = (f, out)
        return out

    def _seq(self, f, bases, ids):
        if not ids:
            return []
        args = [[b[i] for i in ids] for b in bases]
        return SEQ[f.prim][2](*([self.T] if f.prim in TIMED else []), *args)

    def _agg(self, f, t, rows):
        # map each visible row along the path to its ancestor at the top
        anc = {r[t.index]: r[t.index] for r in rows}
        for step, (_, child, fk) in enumerate(f.path):
            ct = self.w.tables[child]
            nxt = {r[ct.index]: anc[r[fk]] for r in self.rows(child) if not isnull(r[fk]) and r[fk] in anc}
            if step == 0 and self.orphans:
                nxt.update({r[ct.index]: ("orphan", r[fk]) for r in self.rows(child) if not isnull(r[fk]) and r[fk] not in anc})
            anc = nxt
        child = f.path[-1][1]
        ct = self.w.tables[child]
        where = self.values(f.where) if f.where is not None else None
        bases = [self.values(b) for b in f.bases]
        members = {}
        for r in self.rows(child):
            i = r[ct.index]
            if i not in anc:
                continue
            if where is not None and not where[i]:
                continue
            members.setdefault(anc[i], []).append((r, i))
        fn, default = AGG[f.prim][2], AGG[f.prim][3]
        out = {}
        for key in [r[t.index] for r in rows] + [k for k in members if isinstance(k, tuple)]:
            ms = members.get(key, [])
            if f.use_previous:
                if f.use_previous[0][1] == "o":
                    ms = ms[-f.use_previous[0][0]:]
                else:
                    lo = minus(self.T, f.use_previous)
                    ms = [m for m in ms if m[0][ct.time_index] >= lo]
            v = fn(self.T, *[[b[i] for _, i in ms] for b in bases]) if ms else None
            if not isinstance(key, tuple):
                out[key] = default if isnull(v) else v
        return out

    def infinite(self, f):
        """some value on the way is infinite (sums and means over infinities
        are left unspecified: pandas' compensated summation answers nan)"""
        return any(isinstance(v, float) and math.isinf(v) for d in f.walk() for v in self.values(d).values())

    def value(self, f, iid):
        vals = self.values(f)
        return vals[iid] if iid in vals else f.default


# ------------------------------------------------- build real feature objects
class Builder:
    def __init__(self, es, w):
        self.es, self.w = es, w
        self.memo = {}

    def rel(self, parent, child, fk):
        for r in self.es.relationships:
            if r.parent_entity.id == parent and r.child_entity.id == child and r.child_variable.id == fk:
                return r
        raise KeyError((parent, child, fk))

    def __call__(self, f):
        if id(f) in self.memo:
            return self.memo[id(f)][1]
        es = self.es
        if f.op == "id":
            out = ft.Feature(es[f.entity][f.col])
        else:
            bases = [self(b) for b in f.bases]
            if f.op == "direct":
                out = ft.feature_base.DirectFeature(bases[0], es[f.entity],
                                                    relationship=self.rel(f.bases[0].entity, f.entity, f.fk))
            elif f.op == "row":
                cls = ROW[f.prim][3]
                prim = cls if f.param is None else cls(f.param)
                out = ft.Feature(bases, primitive=prim)
            elif f.op == "seq":
                out = ft.Feature(bases, primitive=SEQ[f.prim][3])
            elif f.op == "group":
                out = ft.Feature(bases, primitive=SEQ[f.prim][3], groupby=self(f.groupby))
            elif f.op == "agg":
                from featuretools.entityset.relationship import RelationshipPath
                path = RelationshipPath([(False, self.rel(p, c, fk)) for p, c, fk in f.path])
                up = None
                if f.use_previous:
                    if len(f.use_previous) == 1:
                        up = ft.Timedelta(f.use_previous[0][0], f.use_previous[0][1])
                    else:
                        up = ft.Timedelta({u: v for v, u in f.use_previous})
                out = ft.feature_base.AggregationFeature(
                    bases, parent_entity=es[f.entity], primitive=AGG[f.prim][4], relationship_path=path,
                    use_previous=up, where=self(f.where) if f.where is not None else None)
            if SLICE.get(f.__dict__.get("prim")) is not None:
                out = out[SLICE[f.prim]]
        self.memo[id(f)] = (f, out)
        return out


# ----------------------------------------------------- random feature builder
class FeatureGen:
    def __init__(self, rng, w, allow_full=True, allow_calc=True, max_depth=4, where=True, use_previous=True,
                 multi_unit=False, exclude=(), month_units=True, allow_order=True, custom=False):
        self.rng, self.w = rng, w
        self.max_depth = max_depth
        self.allow_full, self.allow_where, self.allow_up = allow_full, where, use_previous
        self.allow_calc = allow_calc and w.time_kind == "datetime"
        self.multi_unit = multi_unit
        self.month_units = month_units
        self.exclude = set(exclude) | set([] if custom else CUSTOM)
        self.allow_order = allow_order
        self.ids = {}

    def identities(self, entity):
        if entity not in self.ids:
            self.ids[entity] = [identity(self.w, entity, c) for c in self.w.tables[entity].kinds]
        return self.ids[entity]

    def ok(self, f, want):
        k = f.kind
        if want == ANY:
            return k in (NUM, BOOL, CAT, DT, ORD, TEXT, "fk")
        if want == BOOL:
            return k == BOOL and not f.nullable
        if want == NBOOL:
            return k == BOOL
        if want == CAT:
            return k in (CAT, ORD)
        if want == DT:
            return k in (DT,) or (k == "time" and self.w.time_kind == "datetime")
        if want == "time":
            return k == "time" and self.w.time_kind == "datetime"
        if want == NUM:
            return k == NUM
        return k == want

    def get(self, entity, want, depth):
        """a feature of the wanted kind on entity with depth <= depth, or None"""
        rng = self.rng
        for _ in range(6):
            if depth <= 0 or rng.random() < 0.35:
                cand = [f for f in self.identities(entity) if self.ok(f, want)]
                if cand:
                    return rng.choice(cand)
                if depth <= 0:
                    return None
            f = self.any_feature(entity, depth, want)
            if f is not None and self.ok(f, want):
                return f
        cand = [f for f in self.identities(entity) if self.ok(f, want)]
        return rng.choice(cand) if cand else None

    def any_feature(self, entity, depth, want=None):
        rng = self.rng
        ops = ["direct"] * (6 if want == NBOOL else 2) + ["agg"] * 3 + ["row"] * 3 + (["seq", "group"] if self.allow_full else [])
        op = rng.choice(ops)
        w = self.w
        if op == "direct":
            fks = list(w.tables[entity].fks.items())
            if not fks:
                return None
            fk, parent = rng.choice(fks)
            b = self.get(parent, BOOL if want == NBOOL else want if want not in (None, "index", "time", "fk", BOOL) else
                         rng.choice([NUM, CAT, DT, BOOL]), depth - 1)
            if b is None or b.kind in ("index", "time", "fk", "latlong"):
                return None
            return F("direct", entity, b.kind, True if b.default is None else b.nullable, bases=[b], fk=fk)
        if op == "agg":
            path = []
            cur = entity
            while True:
                rels = [(p, c, k) for p, c, k in w.rels if p == cur]
                if not rels:
                    break
                r = rng.choice(rels)
                path.append(r)
                cur = r[1]
                if rng.random() < 0.6:
                    break
            if not path:
                return None
            names = [n for n, a in AGG.items() if n not in self.exclude]
            if not self.allow_calc:
                names = [n for n in names if n not in ("time_since_last", "time_since_first")]
            if not self.allow_order:
                names = [n for n in names if n not in ("first", "last")]
            if want in (BOOL, NBOOL):
                return None
            if want in (NUM,):
                names = [n for n in names if AGG[n][1] == NUM]
            elif want in (CAT, ORD, DT, TEXT):
                names = [n for n in names if AGG[n][1] == "same"]
            if not names:
                return None
            prim = rng.choice(names)
            if len(names) > 6 and rng.random() < 0.08:
                prim = rng.choice([n for n in CUSTOM if n in names] or [prim])
            ins, outk, fn, default, cls = AGG[prim]
            bases = []
            for k in ins:
                if k == ANY and want in (NUM, CAT, DT, TEXT, ORD):
                    k = want
                if k == "index":
                    b = [f for f in self.identities(cur) if f.kind == "index"][0]
                elif k == "time":
                    c = [f for f in self.identities(cur) if self.ok(f, "time")]
                    if not c:
                        return None
                    b = c[0]
                else:
                    b = self.get(cur, k, depth - 1)
                if b is None:
                    return None
                bases.append(b)
            if prim in ("first", "last", "mode") and bases[0].kind == "fk":
                return None
            if prim == "entropy" and bases[0].kind == ORD:
                return None
            where = up = None
            if self.allow_where and rng.random() < 0.3:
                where = self.get(cur, BOOL, min(depth - 1, 2))
                same_one = [b for b in bases if self.ok(b, BOOL)]
                if same_one and rng.random() < 0.4:     # filtered by what it aggregates
                    where = rng.choice(same_one)
            if self.allow_up and rng.random() < 0.25 and w.tables[cur].time_index:
                if w.time_kind == "numeric" or rng.random() < 0.4:
                    up = [(rng.randint(1, 3), "o")]
                else:
                    pool = [(rng.randint(1, 72), "h"), (rng.randint(1, 4), "d"), (rng.randint(30, 3000), "m"),
                            (1, "w")]
                    if self.month_units:
                        pool += [(1, "mo"), (1, "Y")]
                    up = [rng.choice(pool)]
                    if self.multi_unit and rng.random() < 0.4:
                        up = [(rng.randint(1, 2), "d"), (rng.randint(1, 12), "h")]
            kind = bases[0].kind if outk == "same" else outk
            if kind == "time":
                kind = DT
            return F("agg", entity, kind, default is None, bases=bases, prim=prim, path=path, where=where,
                     use_previous=up)
        if op == "row":
            names = [n for n in ROW if n not in self.exclude]
            if not self.allow_calc:
                names = [n for n in names if n not in ("time_since", "age")]
            if want in (NUM, BOOL, NBOOL, ORD):
                want = BOOL if want == NBOOL else want
                names = [n for n in names if ROW[n][1] == want] or names
            if not names:
                return None
            prim = rng.choice(names)
            ins, outk, fn, cls, param = ROW[prim]
            bases = [self.get(entity, k, depth - 1) for k in ins]
            if any(b is None for b in bases):
                return None
            if prim == "equal_scalar" or prim == "not_equal_scalar":
                p = rng.randint(0, 4) if bases[0].kind == ORD else rng.choice(["alpha", "beta", "red"])
            elif param == NUM:
                p = rng.choice([-1, 0, 1, 2.5, 7])
            else:
                p = None
            return F("row", entity, outk, not (outk == BOOL), bases=bases, prim=prim, param=p)
        if op in ("seq", "group"):
            names = [n for n in SEQ if n not in self.exclude]
            if want is not None and want != NUM:
                return None
            if not names:
                return None
            prim = rng.choice(names)
            bs = [self.get(entity, k, depth - 1) for k in SEQ[prim][0]]
            if any(b is None for b in bs):
                return None
            if op == "seq":
                return F("seq", entity, NUM, True, bases=bs, prim=prim)
            g = self.get(entity, rng.choice([CAT, "fk"]), min(depth - 1, 1))
            if g is None or any(g is b for b in bs):
                return None
            return F("group", entity, NUM, True, bases=bs, prim=prim, groupby=g)

    def top(self, entity, depth=None):
        for _ in range(40):
            f = self.any_feature(entity, depth or self.rng.randint(1, self.max_depth))
            if f is not None and f.kind != "latlong":
                return f
        return self.rng.choice([f for f in self.identities(entity) if f.kind not in ("index", "latlong")] or
                               [self.identities(entity)[0]])
