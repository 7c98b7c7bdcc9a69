"""C21: spans of time mean the same in every spelling."""
import calendar
import copy
import datetime as dt
import itertools
import json

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools.entityset.relationship import RelationshipPath
from featuretools.feature_base import AggregationFeature, DirectFeature
from featuretools.utils import convert_time_units, make_temporal_cutoffs
from featuretools.utils.wrangle import _check_timedelta
from .. import gen
from ..common import exc_key, frame_diff
from ..workload import LONG, cutoff_frame

CASES = {"quick": 260, "thorough": 4000}
RULE = ("random spans (one unit or several, absolute, calendar or observations, whole or fractional values, negative) in every spelling: number and "
        "unit in short, long, singular, plural and any capitalization, one string with or without space, dictionary, get_arguments through JSON, pd.Timedelta, pd.DateOffset "
        "(also multiples), the Timedelta itself; monitors: equal Timedeltas, arguments and names; names differ for different spans; shifting a "
        "timestamp by it equals calendar arithmetic by hand; negation; spellings used as use_previous, training_window and approximate give the same "
        "features and matrix; what is no span is rejected; make_temporal_cutoffs and convert_time_units against their definition; distinct = spans")
NEED = {"spellings": 6000, "shifts": 6000, "multi": 300, "fractional": 150, "observations": 100, "calendar": 300, "rejected": 2000, "names": 10000,
        "matrices": 200, "approximate": 40, "temporal": 500, "negated": 300, "conversions": 500, "multiples": 30}
NS = {"ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "d": 86400 * 10**9, "w": 7 * 86400 * 10**9}
READABLE = dict(LONG, o="observations")


def casing(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize(), s.swapcase(), "".join(rng.choice([c.upper(), c]) for c in s)])


def unit_spellings(u):
    long = READABLE[u]
    out = [u, long, long[:-1]]
    return out


def spell_unit(rng, u):
    s = rng.choice(unit_spellings(u))
    if s == "m":
        return s  # "M" is months elsewhere
    return casing(rng, s)


def random_span(rng):
    k = rng.random()
    if k < 0.12:
        return {"o": rng.randint(1, 30)}
    if k < 0.6:
        u = rng.choice(["ms", "s", "m", "h", "d", "w", "mo", "Y"])
        v = rng.choice([1, 1, 2, rng.randint(1, 400 if u != "Y" else 60)])
        if u in NS and rng.random() < 0.3:
            v = rng.choice([0.5, 1.5, 2.25, 0.125, 36.5])
        return {u: v}
    us = rng.sample(["ms", "s", "m", "h", "d", "w", "mo", "Y"], rng.choice([2, 2, 3]))
    return {u: rng.choice([1, rng.randint(1, 40)]) for u in us}


def spellings(rng, rec, span):
    """every way to say it: [(text, callable)]"""
    out = []
    if len(span) == 1:
        (u, v), = span.items()
        for _ in range(3):
            su = spell_unit(rng, u)
            out.append(("Timedelta(%r, %r)" % (v, su), lambda su=su: ft.Timedelta(v, su)))
            su = spell_unit(rng, u)
            text = "%s%s%s" % (v, rng.choice(["", " ", "  "]), su)
            out.append((text, lambda text=text: ft.Timedelta(text)))
            out.append(("_check_timedelta(%r)" % text, lambda text=text: _check_timedelta(text)))
        if isinstance(v, int):
            out.append(("numpy", lambda: ft.Timedelta(np.int64(v), u)))
    items = list(span.items())
    for _ in range(2):
        rng.shuffle(items)
        d = {spell_unit(rng, u): v for u, v in items}
        out.append(("Timedelta(%r)" % d, lambda d=d: ft.Timedelta(dict(d))))
    out.append(("from_dictionary", lambda: ft.Timedelta.from_dictionary(json.loads(json.dumps(ft.Timedelta(dict(span)).get_arguments())))))
    out.append(("itself", lambda: _check_timedelta(ft.Timedelta(dict(span)))))
    out.append(("deepcopy", lambda: copy.deepcopy(ft.Timedelta(dict(span)))))
    out.append(("--", lambda: -(-ft.Timedelta(dict(span)))))
    if "o" not in span and "ms" not in span:
        kw = {LONG[u]: v for u, v in items}
        if all(isinstance(v, int) for v in span.values()):
            out.append(("DateOffset(%r)" % kw, lambda: _check_timedelta(pd.DateOffset(**kw))))
            n = rng.choice([2, 3])
            if all(v % n == 0 for v in span.values()):
                rec.event("multiples")
                kn = {LONG[u]: v // n for u, v in items}
                out.append(("%d * DateOffset(%r)" % (n, kn), lambda: _check_timedelta(n * pd.DateOffset(**kn))))
                out.append(("DateOffset(%d, %r)" % (n, kn), lambda: _check_timedelta(pd.DateOffset(n, **kn))))
    return out


def shift_by_hand(t, span, sign):
    """years and months of the calendar (day clipped), then the exact rest"""
    months = sign * (12 * span.get("Y", 0) + span.get("mo", 0))
    if months:
        k = t.year * 12 + t.month - 1 + months
        y, m = divmod(k, 12)
        t = t.replace(year=y, month=m + 1, day=min(t.day, calendar.monthrange(y, m + 1)[1]))
    ns = sum(int(round(v * NS[u])) for u, v in span.items() if u in NS)
    return pd.Timestamp(t.value + sign * ns)


def random_time(rng):
    if rng.random() < 0.3:
        return pd.Timestamp(rng.choice(["2012-02-29", "2011-12-31 23:59:59", "2013-03-31", "2000-01-31 12:00", "2016-02-29 00:00:01"]))
    return pd.Timestamp("2010-01-01") + pd.Timedelta(seconds=rng.randint(0, 10**9), milliseconds=rng.choice([0, 0, 7]))


def spans(rng, rec):
    all_spans = []
    for _ in range(10):
        span = random_span(rng)
        all_spans.append(span)
        rec.nontrivial(sorted(span.items()))
        base = ft.Timedelta(dict(span))
        if len(span) > 1:
            rec.event("multi")
        if "o" in span:
            rec.event("observations")
        if "mo" in span or "Y" in span:
            rec.event("calendar")
        if any(isinstance(v, float) for v in span.values()):
            rec.event("fractional")
        absolute = all(u in NS for u in span)
        rec.check(base.is_absolute() == absolute and base.has_no_observations() == ("o" not in span) and base.has_multiple_units() == (len(span) > 1), "kind",
                  lambda: "%r: is_absolute %r, has_no_observations %r, has_multiple_units %r" % (
                      span, base.is_absolute(), base.has_no_observations(), base.has_multiple_units()))
        times = [random_time(rng) for _ in range(2)]
        said = spellings(rng, rec, span)
        if absolute:
            ns = sum(int(round(v * NS[u])) for u, v in span.items())
            td = pd.Timedelta(ns, "ns")
            for t in times:
                x = _check_timedelta(td)
                rec.event("shifts")
                rec.check(t - x == t - td and t + x == t + td, "pd.Timedelta", lambda: "%s -/+ %r is %s / %s" % (t, td, t - x, t + x))
                y = ft.Timedelta.from_dictionary(json.loads(json.dumps(x.get_arguments())))
                rec.check(y == x and abs((t - y) - (t - td)) <= pd.Timedelta("1us"), "pd.Timedelta saved", lambda: "%r became %r, %s" % (td, y.get_arguments(), t - y))
        for text, make in said:
            rec.event("spellings")
            try:
                x = make()
            except Exception as e:
                rec.violation("spelling:" + text.split("(")[0].split("%")[0][:12], "%s (%r) raised %s" % (text, span, exc_key(e)))
                continue
            if not rec.check(x == base and base == x and not (x != base), "equal", lambda: "%s is %r, Timedelta(%r) is %r" % (text, x.times, span, base.times)):
                continue
            rec.check(dict(x.times) == span, "times", lambda: "%s has %r instead of %r" % (text, x.times, span))
            rec.check(sorted(x.get_name().split()) == sorted(base.get_name().split()), "name", lambda: "%s: name %r, other spelling %r" % (text, x.get_name(), base.get_name()))
            rec.check(not (x == list(span.values())[0]) and x != None and x != "x", "foreign", "%s equals something else" % text)  # noqa: E711
            for t in times:
                if "DateOffset" in text and not text.startswith("DateOffset({") and ("mo" in span or "Y" in span):
                    continue  # pandas steps through multiples of an offset one by one
                rec.event("shifts")
                if "o" in span:
                    for f in (lambda: t + x, lambda: t - x):
                        try:
                            f()
                            rec.violation("observations shift", "%s shifted a time" % text)
                        except Exception:
                            pass
                    continue
                want = shift_by_hand(t, span, -1), shift_by_hand(t, span, 1)
                got = t - x, t + x
                rec.check(got == want, "shift", lambda: "%s -/+ %s is %s / %s, by the calendar %s / %s" % (t, text, got[0], got[1], want[0], want[1]))
                n = -x
                rec.event("negated")
                got = t + n, t - n
                rec.check(got == want, "negation", lambda: "%s +/- -(%s) is %s / %s, by the calendar %s / %s" % (t, text, got[0], got[1], want[0], want[1]))
        d = copy.deepcopy(span)
        ft.Timedelta(d)
        rec.check(d == span and list(d) == list(span), "argument", lambda: "the dictionary given was changed to %r" % d)
    # names tell spans apart
    for a, b in itertools.combinations(all_spans + [random_span(rng) for _ in range(20)], 2):
        rec.event("names")
        if a != b:
            x, y = ft.Timedelta(dict(a)), ft.Timedelta(dict(b))
            rec.check(x != y and x.get_name() != y.get_name(), "names", lambda: "%r and %r: equal %r, names %r and %r" % (a, b, x == y, x.get_name(), y.get_name()))
    for _ in range(12):
        bad = rng.choice(["", " ", "day", "5", "5 5", "1 day 2", "d5", "1 fortnight", "2 xx", "-", "1,5 h", "h 3", "1.h.5", "one day", "1..5 h", "5 days ago"])
        rec.event("rejected")
        for make in (_check_timedelta, ft.Timedelta):
            try:
                x = make(bad)
            except Exception:
                continue
            rec.violation("accepted", "%r was taken for %r" % (bad, getattr(x, "times", x)))


def use_spans(rng, rec):
    """the spellings, used"""
    w = gen.gen_world(rng, n_tables=2, time_kind="datetime", timeless=0.0)
    parent, child = list(w.tables)[:2]
    if not any(p == parent and c == child for p, c, _ in w.rels):
        return
    es = gen.build_es(w)
    span = rng.choice([{"h": rng.randint(1, 40)}, {"d": 1}, {"m": rng.randint(30, 900)}, {"d": 1, "h": rng.randint(1, 12)}, {"h": rng.randint(1, 9), "m": 30},
                       {"mo": 1}, {"w": 1}, {"o": rng.randint(1, 4)}, {"h": 1.5}, {"d": 1, "ms": 500}])
    col = [c for c, k in w.tables[child].kinds.items() if k in ("num", "int")]
    said = [s for s in spellings(rng, rec, span) if s[0] != "--"]
    if all(u in NS for u in span):
        said.append(("pd.Timedelta", lambda: pd.Timedelta(sum(int(v * NS[u]) for u, v in span.items()), "ns")))
    chosen = rng.sample(said, min(3, len(said)))
    mode = rng.choice(["previous", "window", "approximate"] if "o" not in span else ["previous"])
    if mode == "approximate" and not all(u in NS for u in span):
        mode = "window"
    pairs, df = cutoff_frame(rng, w, child if mode == "approximate" else parent, rng.randint(2, 6), n_times=rng.randint(1, 3))
    if not pairs:
        return
    include = rng.random() < 0.5
    r = [x for x in es.relationships if x.parent_entity.id == parent and x.child_entity.id == child][0]
    path = RelationshipPath([(False, r)])
    first, names = None, None
    for text, make in chosen:
        arg = make()
        if len(span) == 1 and rng.random() < 0.4 and text != "pd.Timedelta":
            (u, v), = span.items()
            arg = "%s %s" % (v, spell_unit(rng, u))
        kw = {}
        prev = arg if mode == "previous" else None
        feats = [AggregationFeature(es[child][c], parent_entity=es[parent], primitive=p, use_previous=prev, relationship_path=path)
                 for c, p in [(w.tables[child].index, P.Count)] + [(c, P.Sum) for c in col[:2]]]
        if mode != "previous":
            kw["training_window" if mode == "window" else "approximate"] = arg
        if mode == "approximate":
            # approximated are features of ancestors of the target
            rec.event("approximate")
            feats = [DirectFeature(f, es[child], relationship=r) for f in feats]
            feats.append(ft.Feature(es[child][w.tables[child].time_index], primitive=P.Hour))
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=df.copy(), include_cutoff_time=include, cutoff_time_in_index=True, **kw)
        rec.event("matrices")
        got = [f.get_name() for f in feats]
        if first is None:
            first, first_text, names = fm, text, got
            continue
        if mode == "previous" and (len(span) > 1 or text == "pd.Timedelta" or first_text == "pd.Timedelta"):
            # the names follow the order of the units; pd.Timedelta has no units
            fm = fm.copy()
            fm.columns = first.columns
        else:
            rec.check(got == names, "feature names", lambda: "%s: names %r, %s: %r" % (text, got, first_text, names))
        d = frame_diff(first, fm)
        rec.check(d is None, "matrix:" + mode, lambda: "%s spelled %s and %s (%r): %s" % (mode, first_text, text, span, d))


def temporal(rng, rec):
    n = rng.randint(1, 5)
    ids = [rng.choice([rng.randint(0, 9), "a%d" % rng.randint(0, 9)]) for _ in range(n)]
    cut = [random_time(rng) for _ in range(n)]
    size = rng.choice([pd.Timedelta(hours=rng.randint(1, 40)), pd.Timedelta(minutes=rng.randint(1, 400)), pd.Timedelta(days=1)])
    k = rng.randint(1, 6)
    wrap = rng.choice([list, np.array, lambda x: pd.Series(x, index=rng.sample(range(50), len(x)))])
    mode = rng.choice(["size+n", "size+start", "n+start"])
    starts = [t - rng.randint(0, 9) * size for t in cut]
    if mode == "size+n":
        got = make_temporal_cutoffs(wrap(ids), wrap(cut), window_size=rng.choice([size, "%dmin" % (size // pd.Timedelta(minutes=1))]), num_windows=k)
        want = [(i, t - j * size) for i, t in zip(ids, cut) for j in reversed(range(k))]
    elif mode == "size+start":
        got = make_temporal_cutoffs(wrap(ids), wrap(cut), window_size=size, start=list(starts))
        want = []
        for i, t, s in zip(ids, cut, starts):
            while s <= t:
                want.append((i, s))
                s += size
    else:
        k = max(k, 2)
        starts = [t - rng.randint(1, 9) * (k - 1) * size for t in cut]
        got = make_temporal_cutoffs(wrap(ids), wrap(cut), num_windows=k, start=list(starts))
        want = [(i, s + j * ((t - s) // (k - 1))) for i, t, s in zip(ids, cut, starts) for j in range(k)]
    rec.event("temporal", len(want))
    have = list(zip([str(x) for x in got["instance_id"]], got["time"].tolist()))
    rec.check(have == [(str(i), t) for i, t in want] and list(got.index) == list(range(len(want))), "temporal " + mode,
              lambda: "make_temporal_cutoffs (%s, %s, k=%d, size %s) gave %r, expected %r" % (list(zip(ids, cut)), mode, k, size, have, want))


UNITS = {"years": 31540000, "months": 2628000, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "nanoseconds": 1e-9}


def conversions(rng, rec):
    for u, d in UNITS.items():
        secs = rng.choice([0, rng.randint(-10**6, 10**9), rng.uniform(-1e6, 1e6)])
        rec.event("conversions")
        got = convert_time_units(secs, u)
        rec.check(abs(got - secs / d) <= 1e-9 * max(1, abs(secs / d)), "conversion", lambda: "convert_time_units(%r, %r) is %r" % (secs, u, got))
    for u in ("day", "weeks", "", None, "HOURS"):
        try:
            convert_time_units(1, u)
            rec.violation("conversion accepted", "convert_time_units(1, %r) was accepted" % (u,))
        except ValueError:
            pass


def case(rng, rec, tier):
    spans(rng, rec)
    use_spans(rng, rec)
    temporal(rng, rec)
    conversions(rng, rec)
