"""C15: last_time_index of an instance is the last time it or anything below it was observed."""
import copy

import numpy as np
import pandas as pd

import featuretools as ft
from .. import gen, ref
from ..common import norm

CASES = {"quick": 500, "thorough": 8000}
RULE = ("random schemas (chains, diamonds, two links between one pair, timeless entities at every level, empty tables, dangling and missing "
        "links, ties, numeric and datetime times, int/str/negative/category ids, pandas and dask), last time indexes calculated, then kept "
        "up to date through update_data, updated_entities, concat, new relationships and normalize; monitor: every entry equals the maximum "
        "over the instance's own time and all its descendants', walked in the logical tables; distinct = (schema, step, values)")
NEED = {"entries": 15000, "entities": 2000, "from_children": 3000, "from_grandchildren": 400, "never": 500, "numeric": 1500, "dask": 60,
        "step:update": 150, "step:some": 120, "step:partial": 80, "step:concat": 80, "step:normalize": 60, "step:again": 60, "step:relationship": 30}


def descend(w):
    """{entity: {id: (last time, distance)}}"""
    out = {}

    def visit(name):
        if name in out:
            return out[name]
        t = w.tables[name]
        own = {r[t.index]: (r[t.time_index] if t.time_index else None, 0) for r in t.rows}
        for p, c, col in w.rels:
            if p != name:
                continue
            below = visit(c)
            ct = w.tables[c]
            for r in ct.rows:
                k = r[col]
                if k is None or k not in own:
                    continue
                x, d = below[r[ct.index]]
                if x is not None and (own[k][0] is None or x > own[k][0]):
                    own[k] = (x, d + 1)
        out[name] = own
        return own
    for name in w.tables:
        visit(name)
    return out


def monitor(rec, es, w, how, only=None):
    want = descend(w)
    for name, t in w.tables.items():
        if name not in es.entity_dict or only is not None and name not in only:
            continue
        e = es[name]
        lti = e.last_time_index
        rec.event("entities")
        if lti is None:
            rec.violation("missing", "%s has no last time index (%s)" % (name, how))
            continue
        if hasattr(lti, "compute"):
            rec.event("dask")
            lti = lti.compute()
            ids = list(lti.index)
        else:
            ids = list(lti.index)
            rec.check([norm(x) for x in ids] == [norm(x) for x in e.df.index], "rows", lambda: "%s: %s for rows %s (%s)" % (name, ids, list(e.df.index), how))
            kind = "M" if w.time_kind == "datetime" else "f"
            rec.check(lti.empty or lti.dtype.kind == kind, "dtype", lambda: "%s: %s (%s)" % (name, lti.dtype, how))
        rec.check(len(ids) == len(set(ids)) and set(map(norm, ids)) == set(map(norm, want[name])), "instances", lambda: "%s: %s wanted %s (%s)" % (name, ids, list(want[name]), how))
        for k, v in zip(ids, lti):
            rec.event("entries")
            x, d = want[name].get(k, (None, 0))
            if w.time_kind != "datetime":
                rec.event("numeric")
            rec.event("never" if x is None else "from_children" if d == 1 else "from_grandchildren" if d > 1 else "own")
            if norm(v) != norm(x) and not (norm(v) is None and x is None):
                rec.violation("value", "%s[%r]: last time %r, but %r (%d levels below); %s\n%s" % (name, k, v, x, d, how, w.describe()))
                return
        rec.nontrivial((name, sorted(map(repr, want[name].items()))))


def mutate(rng, w, name):
    t = w.tables[name]
    rows = [dict(r) for r in t.rows]
    for r in rows:
        if rng.random() < 0.3:
            if t.time_index:
                other = rng.choice(rows)
                r[t.time_index] = other[t.time_index] + (gen.HOUR if w.time_kind == "datetime" else 1.0) * rng.randint(-20, 40)
                for s in t.secondary:
                    if r[s] is not None:
                        r[s] = max(r[s], r[t.time_index])
            for c, p in t.fks.items():
                if w.tables[p].rows:
                    r[c] = rng.choice(w.tables[p].rows)[w.tables[p].index]
    if rng.random() < 0.3:
        rows = [r for r in rows if rng.random() < 0.7] or rows[:1]
    t.rows = rows


def case(rng, rec, tier):
    dask = rng.random() < 0.12
    w = gen.gen_world(rng, n_tables=rng.choice([2, 3, 4, 5]), timeless=rng.choice([0.1, 0.4]), dangling=rng.choice([0, 0.1]), empty_tables=0 if dask else rng.choice([0, 0.15]),
                      extra_cols=(1, 2), idkind=rng.choice(["int", "str", "int_neg"]), chain=rng.random() < 0.3, time_kind="datetime" if dask else None)
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True, make_dask=dask)
    if rng.random() < 0.4:
        # for some entities only: those and all above them
        some = rng.sample(list(w.tables), rng.randint(1, min(2, len(w.tables))))
        above, todo = set(), list(some)
        while todo:
            n = todo.pop()
            if n not in above:
                above.add(n)
                todo += [p for p, c, _ in w.rels if c == n]
        es.add_last_time_indexes(updated_entities=list(some))
        monitor(rec, es, w, "of %s" % some, only=above)
        rec.event("step:some")
        if rec.violations:
            return
    es.add_last_time_indexes()
    how = "built"
    monitor(rec, es, w, how)
    if dask or rec.violations:
        return
    steps = []
    for _ in range(rng.randint(1, 4)):
        step = rng.choice(["update", "update", "partial", "concat", "again", "normalize", "relationship"])
        new = globals()["step_" + step](rng, rec, es, w, steps)
        if new is None:
            continue
        es = new
        rec.event("step:" + step)
        steps.append(step)
        monitor(rec, es, w, "after %s" % steps)
        if rec.violations:
            return
    rec.sample({"world": str(w.describe())[:300], "steps": steps})


def fresh(rng, w, name):
    t = w.tables[name]
    rows = list(t.rows)
    if t.time_index:
        rng.shuffle(rows)
    return gen.frame(w, name, rows)


def step_update(rng, rec, es, w, steps):
    name = rng.choice([n for n in w.tables if n in es.entity_dict])
    if not w.tables[name].rows:
        return None
    mutate(rng, w, name)
    es[name].update_data(fresh(rng, w, name))
    return es


def step_partial(rng, rec, es, w, steps):
    names = [n for n in w.tables if w.tables[n].rows]
    some = rng.sample(names, rng.randint(1, min(2, len(names))))
    for n in some:
        mutate(rng, w, n)
        es[n].update_data(fresh(rng, w, n), recalculate_last_time_indexes=False)
    es.add_last_time_indexes(updated_entities=list(some))
    return es


def step_again(rng, rec, es, w, steps):
    es.add_last_time_indexes(*([] if rng.random() < 0.5 else [None]))
    return es


def step_concat(rng, rec, es, w, steps):
    if any(not t.rows for t in w.tables.values()):
        return None
    a, b = copy.deepcopy(es), copy.deepcopy(es)
    for n, t in w.tables.items():
        if rng.random() < 0.7 and len(t.rows) > 1:
            k = rng.randint(1, len(t.rows) - 1)
            rows = list(t.rows)
            rng.shuffle(rows)
            over = rng.randint(0, 2)
            recalc = rng.random() < 0.5
            a[n].update_data(gen.frame(w, n, rows[:k]), recalculate_last_time_indexes=recalc)
            b[n].update_data(gen.frame(w, n, rows[max(0, k - over):]), recalculate_last_time_indexes=recalc)
    return a.concat(b, inplace=rng.random() < 0.3)


def step_normalize(rng, rec, es, w, steps):
    """a new parent, then everything again"""
    name = rng.choice(list(w.tables))
    t = w.tables[name]
    cand = [c for c, k in t.kinds.items() if k in ("int", "ord", "cat") and not any(c in cs for cs in t.secondary.values()) and all(r[c] is not None for r in t.rows)]
    if not cand or not t.rows:
        return None
    c = rng.choice(cand)
    new = "by_%s_%s" % (name, c)
    if new in w.tables:
        return None
    timed = t.time_index is not None and rng.random() < 0.6
    es.normalize_entity(name, new, c, make_time_index=None if timed else False)
    n = gen.Table(new, c)
    n.kinds[c] = "index"
    first = {}
    for r in w.ordered_rows(name):
        first.setdefault(r[c], r)
    if timed:
        n.time_index = es[new].time_index
        n.kinds[n.time_index] = "time"
    for k, r in first.items():
        n.rows.append(dict({c: k}, **({n.time_index: r[t.time_index]} if timed else {})))
    rec.check(es[name].last_time_index is not None, "lost", lambda: "last time index of %s lost by normalize" % name)
    w.tables[new] = n
    t.fks[c] = new
    t.kinds[c] = "fk_"      # keep its dtype
    es.add_last_time_indexes()
    monitor(rec, es, w, "normalized %s" % new)
    # the other steps rewrite tables by kind: stop following this link's dtype
    del w.tables[new]
    del t.fks[c]
    t.kinds[c] = "int" if first and isinstance(next(iter(first)), (int, np.integer)) else "cat"
    for r in list(es.relationships):
        if r.parent_entity.id == new:
            es.relationships.remove(r)
    del es.entity_dict[new]
    es.reset_data_description()
    return es


def step_relationship(rng, rec, es, w, steps):
    """calculated without one link, then with it"""
    if not w.rels:
        return None
    p, c, col = rng.choice(w.rels)
    es2 = ft.EntitySet("es2")
    for n, t in w.tables.items():
        es2.entity_from_dataframe(n, fresh(rng, w, n), index=t.index, time_index=t.time_index, variable_types=gen.vtypes_for(w, n))
    rels = [r for r in w.rels if r != (p, c, col)]
    for a, b, k in rels:
        es2.add_relationship(ft.Relationship(es2[a][w.tables[a].index], es2[b][k]))
    es2.add_last_time_indexes()
    es2.add_relationship(ft.Relationship(es2[p][w.tables[p].index], es2[c][col]))
    es2.add_last_time_indexes(updated_entities=[rng.choice([p, c])])
    return es2
