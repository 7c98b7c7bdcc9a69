"""C25: what is calculated at the same time in several threads is what is calculated alone."""
import io
import random
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from .. import feat, gen, ref, snap
from ..common import same
from ..workload import cutoff_frame, nmc_feature, random_window, unique_features, window_arg

CASES = {"quick": 230, "thorough": 2000}
RULE = ("2 to 4 threads on one EntitySet and one set of feature objects, each with a random list of requests (matrices with other cutoffs, windows, "
        "approximation, instances, include_cutoff_time, chunk sizes; definitions; queries; saving and loading; encoding; selection; descriptions; comparison; metadata; "
        "new EntitySets of the same dataframes and changes of those), with random pauses at lines of featuretools and a short "
        "switch interval; monitor: every answer equals the answer given alone, EntitySet and features are as before; distinct = sequences of thread switches")
NEED = {"answers": 600, "cells": 10000, "switches": 8000, "overlapping": 400, "matrices": 120, "definitions": 25, "queries": 15, "saved": 30, "others": 150}

TOOL = 4


class Pauses:
    """pauses at lines of featuretools, records which thread ran"""

    def __init__(self, seed, p):
        self.rng, self.p = random.Random(seed), p
        self.trace, self.last, self.hot = [], None, {}

    def start(self, code, off):
        fn = code.co_filename
        if "/featuretools/" not in fn or "/tests/" in fn:
            return sys.monitoring.DISABLE
        me = threading.current_thread().name
        if me != self.last and me.startswith("ftv"):
            self.last = me
            self.trace.append((me, code.co_name))
        name = code.co_name
        hot = self.hot.get(name)
        if hot is None:         # some functions are left and entered in the middle again and again
            hot = self.hot[name] = self.rng.random() < 0.12
        if self.rng.random() < (self.p * 10 if hot else self.p):
            time.sleep(self.rng.choice([0, 0, 0.0002, 0.001]))

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "ftv")
        m.register_callback(TOOL, m.events.LINE, self.start)
        m.set_events(TOOL, m.events.LINE)
        m.restart_events()
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        sys.setswitchinterval(self.old)


def matrix(fm):
    return ("matrix", [str(c) for c in fm.columns], list(fm.index), [fm.iloc[:, i].tolist() for i in range(fm.shape[1])])


def equal(a, b):
    if type(a) is not type(b):
        return isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and same(a, b, 1e-9, 1e-12)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool)):
        return a == b
    return same(a, b, 1e-9, 1e-12)


def cells(a):
    return sum(cells(x) for x in a) if isinstance(a, (list, tuple)) else 1


KINDS = ["matrix"] * 6 + ["dfs", "query", "save", "encode", "describe", "compare", "meta", "load", "select", "names", "copy"]


def requests(rng, w, es, objs, target, calc, kinds):
    """(kind, callable) drawn at random; callables take nothing and answer plain values"""
    pairs, df = cutoff_frame(rng, w, target, rng.randint(2, 6), n_times=rng.randint(1, 3), missing=0.1)
    sub = rng.sample(objs, rng.randint(1, len(objs)))
    kind = rng.choice(kinds)
    if kind == "matrix":
        kw = dict(include_cutoff_time=rng.random() < 0.5, cutoff_time_in_index=rng.random() < 0.5)
        if rng.random() < 0.3:
            kw["chunk_size"] = rng.choice([1, 2, 0.5])
        if w.time_kind == "datetime" and rng.random() < 0.6:
            kw["training_window"] = window_arg(rng, random_window(rng))
        elif w.time_kind == "datetime" and not calc and rng.random() < 0.5:
            kw["approximate"] = rng.choice(["1 day", "5 h"])
        if rng.random() < 0.3:
            df = df.assign(label=range(len(df)))
        return kind, lambda: matrix(ft.calculate_feature_matrix(sub, es, cutoff_time=df, **kw))
    if kind == "dfs":
        kw = dict(agg_primitives=rng.sample(["count", "sum", "mean", "mode", "n_most_common", "percent_true", "trend"], 3), trans_primitives=rng.sample(["month", "is_null", "absolute", "add_numeric"], 2),
                  groupby_trans_primitives=rng.sample(["cum_sum", "cum_count"], 1), max_depth=2, max_features=rng.choice([-1, 60]))
        seeds = sub if rng.random() < 0.3 else None
        return kind, lambda: ("dfs", sorted(f.unique_name() for f in ft.dfs(entityset=es, target_entity=target, seed_features=seeds, features_only=True, **kw)))
    if kind == "query":
        e = rng.choice(list(w.tables))
        t = w.tables[e]
        c = rng.choice(list(t.kinds))
        vals = [r[c] for r in rng.sample(t.rows, min(3, len(t.rows)))]
        T = df["time"].iloc[0] if w.time_kind == "numeric" or rng.random() < 0.7 else None
        return kind, lambda: matrix(es.query_by_values(e, vals, variable_id=c, time_last=T))
    if kind == "save":
        def saved():
            text = ft.save_features(sub)
            back = ft.load_features(text)
            out = io.StringIO()
            ft.save_features(back, out)
            return ("save", [repr(feat.canon(f)) for f in back], ft.load_features(io.StringIO(out.getvalue()))[0].get_name())
        return kind, saved
    if kind == "encode":
        def encoded():
            fm = ft.calculate_feature_matrix(sub, es, cutoff_time=df)
            m, defs = ft.encode_features(fm, sub, top_n=3)
            return ("encode", matrix(m), [f.get_name() for f in defs])
        return kind, encoded
    if kind == "select":
        def selected():
            fm = ft.calculate_feature_matrix(sub, es, cutoff_time=df)
            a, b = ft.selection.remove_low_information_features(fm, sub)
            return ("select", matrix(a), [f.get_name() for f in b])
        return kind, selected
    if kind == "describe":
        return kind, lambda: ("describe", [ft.describe_feature(f) for f in sub])
    if kind == "compare":
        return kind, lambda: ("compare", es == es, bool(es.__eq__(es, deep=True)))
    if kind == "meta":
        return kind, lambda: ("meta", sorted(es.metadata.entity_dict), [[v.id for v in e.variables] for e in es.metadata.entities], repr(es))
    if kind == "names":
        return kind, lambda: ("names", [f.rename("x").get_name() for f in sub], [c.get_name() for f in sub for c in [f.copy()]], [f.get_depth() for f in sub],
                              [len(f.get_dependencies(deep=True)) for f in sub])
    if kind == "copy":
        def copied():
            # a copy is changed, the EntitySet is not
            import copy
            c = copy.deepcopy(es)
            c.add_last_time_indexes()
            e = c[target]
            e.update_data(e.df.iloc[::-1].iloc[:max(1, len(e.df) // 2)].copy(), already_sorted=True)
            c.add_interesting_values(max_values=2)
            return ("copy", e.df[e.index].tolist(), {e.id: None for e in es.entities} == {e.id: None for e in c.entities})
        return kind, copied
    # the same dataframes loaded again
    frames = [(e.id, e.df, e.index, e.time_index, {v.id: type(v) for v in e.variables if v.id not in (e.index, e.time_index)}) for e in es.entities]
    rels = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships]

    def load():
        new = ft.EntitySet("new")
        for n, d, i, t, v in frames:
            new.entity_from_dataframe(n, d, index=i, time_index=t, variable_types=v)
        for a, b, c, d in rels:
            new.add_relationship(ft.Relationship(new[a][b], new[c][d]))
        return ("load", matrix(ft.calculate_feature_matrix([ft.Feature(new[target][v.id]) for v in new[target].variables], new, cutoff_time=df)))
    return "load", load


def alone(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def case(rng, rec, tier):
    w = gen.gen_world(rng, kinds=("num", "int", "bool", "cat", "ord", "dt", "text"), max_rows=8, nulls=rng.choice([0, 0.2]))
    if rng.random() < 0.3:
        for t in w.tables.values():
            t.secondary = {}
    es = gen.build_es(w, lti=rng.random() < 0.7, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    calc = rng.random() < 0.5          # approximated ones can be calculated at the present time (known finding of C06)
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]), multi_unit=True, allow_calc=calc)
    build = ref.Builder(es, w)
    objs = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(2, 6))], build)]
    m = nmc_feature(rng, w, es, target, P.NMostCommon(n=2))
    if m is not None and rng.random() < 0.5:
        objs.append(m)
    threads = rng.choice([2, 3, 4])
    work, shared = [], []
    # now and then all ask for the same kind of answer
    kinds = rng.choice([KINDS, KINDS, ["matrix"], [rng.choice(KINDS)]])
    for _ in range(threads):
        mine = []
        for _ in range(rng.randint(1, 3)):
            if shared and rng.random() < 0.25:      # the very same request twice
                mine.append(rng.choice(shared))
                continue
            kind, fn = requests(rng, w, es, objs, target, calc, kinds)
            before = alone(fn)
            mine.append((kind, fn, before))
            shared.append(mine[-1])
        work.append(mine)
    state = snap.es_state(es), [feat.canon(o) for o in objs], [o.get_name() for o in objs]
    answers = [[None] * len(m) for m in work]
    times = [[None] * len(m) for m in work]
    gate = threading.Barrier(threads)

    def run(i):
        gate.wait()
        for j, (kind, fn, _) in enumerate(work[i]):
            t0 = time.monotonic()
            try:
                answers[i][j] = ("ok", fn())
            except Exception as e:
                import traceback
                answers[i][j] = ("raised", "%r\n%s" % (e, traceback.format_exc()[-1500:]))
            times[i][j] = (t0, time.monotonic())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Pauses(rng.random(), rng.choice([0.002, 0.01, 0.05])) as pauses:
            ts = [threading.Thread(target=run, args=(i,), name="ftv%d" % i) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    rec.event("switches", len(pauses.trace))
    rec.nontrivial(pauses.trace[:400])
    flat = [(i, j) for i in range(threads) for j in range(len(work[i]))]
    for i, j in flat:
        kind, fn, want = work[i][j]
        how, got = answers[i][j]
        others = [work[a][b][0] for a, b in flat if a != i and times[a][b][0] < times[i][j][1] and times[i][j][0] < times[a][b][1]]
        rec.event("answers")
        if others:
            rec.event("overlapping")
        rec.event({"matrix": "matrices", "dfs": "definitions", "query": "queries", "save": "saved"}.get(kind, "others"))
        info = lambda: "%s beside %r, features %r, world %s" % (kind, others, [o.get_name() for o in objs], w.describe())  # noqa
        if how == "raised":
            rec.violation("raised", "%s: %s" % (got, info()))
            continue
        rec.event("cells", cells(want))
        rec.check(equal(got, want), "differs:" + kind, lambda: "%r beside others, %r alone: %s" % (str(got)[:900], str(want)[:900], info()))
    after = snap.es_state(es), [feat.canon(o) for o in objs], [o.get_name() for o in objs]
    rec.check(after[1:] == state[1:], "features", lambda: "features changed: %r" % (after[2],))
    diff = snap.diff_state(state[0], after[0])
    rec.check(diff is None, "entityset", lambda: "the EntitySet changed: %s" % diff)
