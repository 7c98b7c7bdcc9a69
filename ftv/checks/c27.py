"""C27: a primitive of one's own is handed exactly what its feature is about, and its answers land in their cells."""
import copy
import functools
import math
import zlib

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from .. import gen, ref
from ..common import same
from ..workload import random_window, window_arg, cutoff_frame, pick_instances, unique_features

CASES = {"quick": 900, "thorough": 7000}
RULE = ("2-5 primitives written for the case (class with a nested function, lambda, method, callable object, partial, built-in "
        "function, or made by make_agg_primitive / make_trans_primitive; 1-3 inputs, with or without the cutoff time, parameters, "
        "default values, several outputs) are stacked with built-in ones over random worlds; each writes down what it is handed "
        "and answers with a code of it; every recorded call must be one the data calls for at one of the requested times, and "
        "every cell must hold the code of the rows its feature is about; distinct = recorded calls")
NEED = {"calls": 2500, "values_compared": 5000, "agg_calls": 900, "row_calls": 400, "seq_calls": 400, "group_calls": 60,
        "timed_calls": 600, "sliced": 600, "defaults": 400, "whole": 60, "twins": 100, "kind_nested": 100, "kind_lambda": 100, "kind_method": 100,
        "kind_callable": 100, "kind_partial": 100, "kind_made": 200, "kind_builtin": 50}

TYPES = {ref.NUM: vt.Numeric, ref.CAT: vt.Discrete, ref.DT: vt.Datetime, ref.BOOL: vt.Boolean, ref.TEXT: vt.NaturalLanguage,
         "index": vt.Index, "time": vt.DatetimeTimeIndex, ref.ANY: vt.Variable}
# built-in ones whose answers do not depend on the order of floating point operations by more than a rounding
PLAIN_AGG = {"count", "sum", "mean", "min", "max", "num_unique", "mode", "num_true", "first", "last", "any", "all", "percent_true"}
PLAIN_ROW = {"is_null", "absolute", "negate", "not", "and", "or", "add_numeric", "subtract_numeric", "add_numeric_scalar",
             "equal_scalar", "greater_than_scalar", "year", "month", "day", "num_characters"}
PLAIN_SEQ = {"cum_sum", "cum_count", "cum_max", "diff"}


def enc(v):
    if ref.isnull(v):
        return "-"
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        return pd.Timestamp(v).isoformat()
    if isinstance(v, (bool, int, float, np.number, np.bool_)):
        v = float(v)
        if math.isinf(v):
            return str(v)
        return "n%d" % round(v * 12345.678 + 0.1234)
    return "?%s:%r" % (type(v).__name__, v)


def call_text(T, args):
    return "%s(%s)" % ("" if T is None else enc(T), " | ".join(",".join(a) for a in args))


def code(text, how):
    if how == "num":
        return float(zlib.crc32(text.encode()) % 99991)
    return "<%s>" % text if len(text) < 60 else "<%s..%d>" % (text[:40], zlib.crc32(text.encode()))


class Own:
    """One primitive: the featuretools class and what it must be handed."""

    def __init__(self, rng, i, rec, twin=None):
        self.i, self.rec = i, rec
        if twin is not None:        # another instance of the same class
            self.__dict__.update({k: v for k, v in twin.__dict__.items() if k not in ("i", "seen", "allowed", "prim", "param")})
            self.seen, self.allowed = {}, set()
            self.param = rng.choice([p for p in (4, "y", 7.5) if p != twin.param])
            self.family = twin.family
            self.family[self.param] = self
            self.prim = twin.cls(param=self.param)
            self.twin = True
            return
        self.twin = False
        self.role = rng.choice(["agg", "agg", "agg", "row", "seq"])
        self.how = "num" if self.role == "seq" else rng.choice(["text", "text", "num"])
        self.timed = rng.random() < 0.3
        n = rng.choice([1, 1, 1, 2, 2, 3])
        kinds = [ref.NUM, ref.NUM, ref.CAT, ref.DT, ref.BOOL, ref.TEXT, ref.ANY]
        if self.role == "agg":
            kinds += ["index", "time"]
        self.ins = tuple(rng.choice(kinds) for _ in range(n))
        self.outputs = rng.choice([1, 1, 1, 1, 2, 3])
        self.param = rng.choice([None, None, 3, "x", 2.5])
        self.shape = rng.choice(["list", "array", "series", "shuffled"])
        self.default = rng.choice([None, None, None, "none" if self.how == "text" else -7.0])
        self.style = rng.choice(["nested", "lambda", "method", "callable", "partial", "made", "made"])
        if self.role == "agg" and n == 1 and rng.random() < 0.2:
            self.style, self.timed, self.outputs, self.param, self.how = "builtin", False, 1, None, "num"
            self.default = rng.choice([None, 0.0])
        self.seen, self.allowed, self.fn = {}, set(), None
        self.name = "own_%s%d" % (rng.choice(["a", "B", "c d"]), i)
        self.family = {self.param: self}
        self.cls = None
        self.prim = self.make()

    # ---- the reference
    def answer(self, text, j):
        return code("%s#%s#%s%s" % (self.i, j if self.outputs > 1 else "", "" if self.param is None else "%s;" % (self.param,), text), self.how)

    def reference(self, j):
        if self.style == "builtin":
            def fn(T, *vals):
                return float(len(vals[0]))
        elif self.role == "seq":
            def fn(*vals):
                T = vals[0] if self.timed else None
                vals = vals[1:] if self.timed else vals
                text = call_text(T, [[enc(x) for x in v] for v in vals])
                self.allowed.add(text)
                return [self.answer("%d of %s" % (k, text), j) for k in range(len(vals[0]))]
        elif self.role == "row":
            def fn(T, *vals):
                text = call_text(T if self.timed else None, [[enc(x)] for x in vals])
                self.allowed.add(text)
                return self.answer(text, j)
        else:
            def fn(T, *vals):
                text = call_text(T if self.timed else None, [[enc(x) for x in v] for v in vals])
                self.allowed.add(text)
                return self.answer(text, j)
        return fn

    # ---- what featuretools calls
    def work(self, *args, time=None, param=None):
        if param not in self.family:
            self.rec.violation("parameter", "%s was called with parameter %r, its instances have %s" % (self.name, param, list(self.family)))
            return None
        return self.family[param].work2(*args, time=time)

    def work2(self, *args, time=None):
        rec = self.rec
        rec.event("calls")
        if self.timed:
            rec.event("timed_calls")
            rec.check(time is not None, "no-time", lambda: "%s asked for the cutoff time and was given none" % self.name)
        else:
            rec.check(time is None, "time-unasked", lambda: self.name)
        rec.check(len(args) == len(self.ins), "arguments", lambda: "%s has %d inputs, was handed %d" % (self.name, len(self.ins), len(args)))
        rec.check(all(isinstance(a, pd.Series) for a in args), "not-series", lambda: "%s: %s" % (self.name, [type(a) for a in args]))
        cols = [[enc(x) for x in a] for a in args]
        rec.check(len({len(c) for c in cols}) == 1, "lengths", lambda: "%s was handed series of lengths %s" % (self.name, [len(c) for c in cols]))
        T = time if self.timed else None
        if not cols[0]:
            rec.event("called_empty")
            rec.violation("called-empty", "%s was called without a row" % self.name)
        if self.role == "row":
            texts = [call_text(T, [[x] for x in row]) for row in zip(*cols)]
            for t in texts:
                self.seen.setdefault(t, 0)
            out = [[self.answer(t, j) for t in texts] for j in range(self.outputs)]
        else:
            text = call_text(T, cols)
            self.seen[text] = self.seen.get(text, 0) + 1
            if self.role == "agg":
                out = [self.answer(text, j) for j in range(self.outputs)]
                return out[0] if self.outputs == 1 else out
            out = [[self.answer("%d of %s" % (k, text), j) for k in range(len(cols[0]))] for j in range(self.outputs)]
        out = [self.shaped(o) for o in out]
        return out[0] if self.outputs == 1 else out

    def shaped(self, o):
        if self.shape == "array":
            return np.array(o, dtype=object if self.how == "text" else float)
        if self.shape == "series":
            return pd.Series(o)
        if self.shape == "shuffled":        # answers are by position
            return pd.Series(o, index=range(len(o), 0, -1))
        return o

    def make(self):
        own = self
        base = P.AggregationPrimitive if self.role == "agg" else P.TransformPrimitive
        ins = [TYPES[k] for k in self.ins]
        out = vt.Numeric if self.how == "num" else vt.Categorical
        attrs = {"name": self.name, "input_types": ins, "return_type": out, "number_output_features": self.outputs,
                 "uses_calc_time": self.timed, "default_value": np.nan if self.default is None else self.default}
        if self.role == "seq":
            attrs["uses_full_entity"] = True
        if self.style == "made":
            return self.made(attrs)
        if self.param is not None:
            def __init__(self, param=None):
                self.param = param
            attrs["__init__"] = __init__
        p = self.param

        def getter(self):
            param = getattr(self, "param", None)
            if own.style == "lambda":
                return lambda *a, **k: own.work(*a, param=param, **k)
            if own.style == "partial":
                return functools.partial(own.work, param=param)
            if own.style == "callable":
                return Callable(own, param)
            if own.style == "method":
                return self.compute
            if own.style == "builtin":
                return len

            def nested(*a, **k):
                return own.work(*a, param=param, **k)
            own.fn = nested
            return nested

        def compute(self, *a, **k):
            return own.work(*a, param=getattr(self, "param", None), **k)
        attrs["get_function"], attrs["compute"] = getter, compute
        cls = type("Own%d" % self.i, (base,), attrs)
        self.cls = cls
        return cls(param=p) if p is not None else cls

    def made(self, attrs):
        own = self
        names = ["x", "y", "z"][:len(self.ins)]
        scope = {"own": own}
        src = "def fn(%s%s%s):\n    return own.work(%s, param=%s%s)" % (
            ", ".join(names), ", param=None" if self.param is not None else "", ", time=None" if self.timed else "",
            ", ".join(names), "param" if self.param is not None else "None", ", time=time" if self.timed else "")
        exec(src, scope)
        self.fn = scope["fn"]
        make = P.make_agg_primitive if self.role == "agg" else P.make_trans_primitive
        kw = dict(input_types=attrs["input_types"], return_type=attrs["return_type"], name=self.name, uses_calc_time=self.timed,
                  number_output_features=self.outputs)
        extra = {}
        if self.role == "seq":
            extra["uses_full_entity"] = True
        if self.role == "agg":
            kw["default_value"] = attrs["default_value"]
        else:
            extra["default_value"] = attrs["default_value"]
        if extra:
            kw["cls_attributes"] = extra
        cls = make(scope["fn"], **kw)
        self.cls = cls
        return cls if self.param is None else cls(param=self.param)

    # ---- registration with the reference
    def register(self):
        self.names = []
        for j in range(self.outputs):
            n = "%s%s#%d" % (self.name, "'" if self.twin else "", j)
            kind = ref.NUM if self.how == "num" else ref.CAT
            if self.role == "agg":
                ref.AGG[n] = (self.ins, kind, self.reference(j), self.default, self.prim)
            elif self.role == "row":
                ref.ROW[n] = (self.ins, kind, self.reference(j), self.prim, None)
            else:
                ref.SEQ[n] = (self.ins, kind, self.reference(j), self.prim)
                if self.timed:
                    ref.TIMED.add(n)
            if self.role != "agg" and self.default is not None:
                ref.DEFAULTS[n] = self.default
            if self.outputs > 1:
                ref.SLICE[n] = j
            self.names.append(n)

    def unregister(self):
        for n in self.names:
            for d in (ref.AGG, ref.ROW, ref.SEQ, ref.DEFAULTS, ref.SLICE):
                d.pop(n, None)
            ref.TIMED.discard(n)


class Callable:
    def __init__(self, own, param):
        self.own, self.param = own, param

    def __call__(self, *a, **k):
        return self.own.work(*a, param=self.param, **k)


def case(rng, rec, tier):
    w = gen.gen_world(rng, nulls=rng.choice([0.0, 0.15, 0.4]), kinds=("num", "num", "int", "bool", "cat", "dt", "text"))
    es = gen.build_es(w, lti=rng.random() < 0.7, rng=rng, shuffle=True)
    owns = [Own(rng, i, rec) for i in range(rng.randint(2, 5))]
    for o in list(owns):
        if o.param is not None and rng.random() < 0.5:
            owns.append(Own(rng, len(owns), rec, twin=o))
    for o in owns:
        o.register()
    try:
        play(rng, rec, w, es, owns)
    finally:
        for o in owns:
            o.unregister()


def play(rng, rec, w, es, owns):
    mine = {n: o for o in owns for n in o.names}
    exclude = [n for n in list(ref.AGG) if n not in mine and (n not in PLAIN_AGG or rng.random() < 0.6)]
    exclude += [n for n in list(ref.ROW) if n not in mine and (n not in PLAIN_ROW or rng.random() < 0.6)]
    exclude += [n for n in list(ref.SEQ) if n not in mine and (n not in PLAIN_SEQ or rng.random() < 0.6)]
    parents = [n for n in w.tables if any(p == n for p, _, _ in w.rels)]
    target = rng.choice(parents) if rng.random() < 0.6 else rng.choice(list(w.tables))
    lti_on = any(e.last_time_index is not None for e in es.entities)
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 2, 3]), multi_unit=True, exclude=exclude)
    fs = []
    for _ in range(60):
        f = fg.top(target)
        if rng.random() < 0.3 and f.op != "agg":
            continue
        if any(x.__dict__.get("prim") in mine for x in f.walk()):
            fs.append(f)
            if len(fs) >= 5:
                break
    if not fs:
        return
    twins = {n: m for o in owns if o.twin for t in o.family.values() if t is not o for n, m in zip(t.names, o.names)}
    for f in list(fs):
        if f.__dict__.get("prim") in twins:
            g = copy.copy(f)
            g.prim = twins[f.prim]
            fs.append(g)
            rec.event("twins")
    build = ref.Builder(es, w)
    fs = unique_features(fs, build)
    objs = [f[1] for f in fs]
    fs = [f[0] for f in fs]
    include = rng.random() < 0.7
    window = random_window(rng) if w.time_kind == "datetime" and lti_on and rng.random() < 0.25 else None
    kw = dict(training_window=window_arg(rng, window), include_cutoff_time=include, cutoff_time_in_index=True,
              chunk_size=rng.choice([None, None, 1, 3, 0.5]))
    items = [(o, [(o.get_name(), f)]) for f, o in zip(fs, objs)]
    # every output of a primitive with several, at once
    if rng.random() < 0.4:
        for o, cols in items:
            f = cols[0][1]
            if ref.SLICE.get(f.__dict__.get("prim")) is None:
                continue
            b = o.base_feature
            names = b.get_feature_names()
            rec.check(len(names) == mine[f.prim].outputs, "output-names", lambda: "%s" % names)
            all_of = []
            for j, n in enumerate(names):
                g = copy.copy(f)
                g.prim = mine[f.prim].names[j]
                all_of.append((n, g))
            items = [it for it in items if it[1][0][0] not in names] + [(b, all_of)]
            rec.event("whole")
            break
    rng.shuffle(items)
    objs = [it[0] for it in items]
    if rng.random() < 0.7:
        pairs, df = cutoff_frame(rng, w, target, rng.choice([2, 6, 12, 20]), n_times=rng.randint(1, 3))
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=df, **kw)
    else:
        T = gen.pick_cutoffs(rng, w, 1)[0]
        ids = list(dict.fromkeys(pick_instances(rng, w, target, rng.choice([2, 6, 12]))))
        pairs = [(i, T) for i in ids]
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=ids, **kw)
    columns = [c for it in items for c in it[1]]
    rec.check(list(fm.columns) == [n for n, _ in columns], "columns", lambda: "%s wanted %s" % (list(fm.columns), [n for n, _ in columns]))
    rec.check([tuple(x) for x in fm.index] == pairs, "row-index", lambda: "rows %s wanted %s" % (list(fm.index), pairs))
    lti = ref.last_times(w) if lti_on else None
    oracles = {}
    about = "target %s include=%s window=%s chunk=%s world=%s" % (target, include, window, kw["chunk_size"], w.describe())
    for ri, (iid, T) in enumerate(pairs):
        if T not in oracles:
            oracles[T] = ref.Oracle(w, T, include, window, lti)
            oracles[T].orphans = True
        o = oracles[T]
        for name, f in columns:
            want = o.value(f, iid)
            got = fm[name].iloc[ri]
            rec.event("values_compared")
            own = mine.get(f.__dict__.get("prim"))
            if own is not None and own.default is not None and want == own.default:
                rec.event("defaults")
            if not same(got, want, 1e-6, 1e-7):
                rec.violation("value:%s:%s" % (f.op, own.style if own else getattr(f, "prim", "")),
                              "%s [%s] instance %r cutoff %s: got %r, the rows it is about say %r; %s" % (name, f.text(), iid, T, got, want, about))
    used = {}
    for name, f in columns:
        for x in f.walk():
            own = mine.get(x.__dict__.get("prim"))
            if own is not None:
                used.setdefault(own.i, (own, []))[1].append(x.op)
                if own.outputs > 1:
                    rec.event("sliced")
    for own, ops in used.values():
        rec.event("kind_" + own.style)
        if own.fn is not None:
            rec.check(own.fn.__name__ in ("fn", "nested"), "function-renamed", lambda: "the function of %s is now called %s" % (own.name, own.fn.__name__))
        for t in own.seen:
            rec.event("%s_calls" % ("group" if set(ops) == {"group"} else own.role))
            rec.nontrivial((own.i, t))
            if t not in own.allowed:
                rec.violation("call:" + own.role, "%s (%s, inputs %s, used as %s) was handed %s, which no cutoff time and instance calls for; it should only be handed %s; "
                              "features %s; %s" % (own.name, own.style, own.ins, sorted(set(ops)), t[:300], sorted(own.allowed)[:6], [f.text() for _, f in columns], about))
                break
    rec.sample({"features": [n for n, _ in columns], "primitives": [(o.name, o.role, o.style, o.ins, o.outputs) for o in owns],
                "a_call": [list(o.seen)[:1] for o in owns]})
