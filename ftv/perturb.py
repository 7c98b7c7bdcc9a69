"""Perturbations of a world: change what must not matter."""
import random

import pandas as pd

from . import gen
from .gen import HOUR


def hidden(x, T, include):
    return x > T if include else x >= T


def alter_value(rng, w, t, c, r, nulls=0.2):
    kind = t.kinds[c]
    if kind == "fk":
        pt = w.tables[t.fks[c]]
        return rng.choice(pt.rows)[pt.index] if pt.rows else r[c]
    return gen._val(rng, kind, nulls)


def future(rng, w, T, include, insert=True, keep_ids=()):
    """A world which agrees with w on everything known at T: rows after T are
    deleted, altered, moved (still after T) or inserted; values guarded by a
    secondary time after T are altered.  Returns (world, number of changes)."""
    w2 = w.clone()
    n = 0
    one = HOUR if w.time_kind == "datetime" else 1.0
    base = T + one / 2 if include else T
    for t in w2.tables.values():
        if t.time_index is None:
            continue
        rows = []
        for r in t.rows:
            if hidden(r[t.time_index], T, include):
                n += 1
                p = rng.random()
                if p < 0.3:
                    continue
                r = dict(r)
                for c, k in t.kinds.items():
                    if k not in ("index", "time", "sec") and rng.random() < 0.6:
                        r[c] = alter_value(rng, w2, t, c, r)
                if rng.random() < 0.5:
                    r[t.time_index] = base + one * rng.randint(0, 100)
            else:
                for s, cs in t.secondary.items():
                    if r[s] is not None and hidden(r[s], T, include):
                        n += 1
                        r = dict(r)
                        for c in cs:
                            r[c] = alter_value(rng, w2, t, c, r)
                        if rng.random() < 0.5:
                            r[s] = base + one * rng.randint(0, 100) + one / 2
            rows.append(r)
        t.rows = rows
    if insert:
        for t in w2.tables.values():
            if t.time_index is None or not t.rows:
                continue
            used = {r[t.index] for r in w.tables[t.name].rows} | set(keep_ids)
            for _ in range(rng.randint(0, 3)):
                i = rng.randint(0, 400)
                iid = i if w.idkind == "int" else (i - 30 if w.idkind == "int_neg" else "k%03d" % i)
                if iid in used:
                    continue
                used.add(iid)
                r = {}
                for c, k in t.kinds.items():
                    if k == "index":
                        r[c] = iid
                    elif k == "time":
                        r[c] = base + one * rng.randint(0, 100)
                    elif k == "sec":
                        r[c] = base + one * rng.randint(100, 200) + one / 2
                    elif k == "fk":
                        pt = w2.tables[t.fks[c]]
                        r[c] = rng.choice(pt.rows)[pt.index] if pt.rows else ("zz" if w.idkind == "str" else 999)
                    else:
                        r[c] = gen._val(rng, k, 0.1)
                t.rows.append(r)
                n += 1
    return w2, n


def add_future_tables(rng, w2):
    return w2


def drop_old(rng, w, T, include, first, lti, in_window):
    """Delete or alter rows outside the training window (and, with last time
    indexes, whose last activity is outside it too)."""
    w2 = w.clone()
    n = 0
    for t in w2.tables.values():
        if t.time_index is None:
            continue
        rows = []
        for r in t.rows:
            x = r[t.time_index]
            inside = in_window(x) or (lti is not None and in_window(lti[t.name].get(r[t.index])))
            if not hidden(x, T, include) and not inside:
                n += 1
                if rng.random() < 0.5:
                    continue
                r = dict(r)
                for c, k in t.kinds.items():
                    if k not in ("index", "time", "sec", "fk") and rng.random() < 0.7:
                        r[c] = alter_value(rng, w2, t, c, r)
            rows.append(r)
        t.rows = rows
    return w2, n
