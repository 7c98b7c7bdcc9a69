"""C14: an EntitySet stays consistent, and keeps the data, through any sequence of edits."""
import copy

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from .. import gen, snap
from ..common import norm

CASES = {"quick": 1500, "thorough": 25000}
RULE = ("random sequences of 6-16 edits (load with and without index / inferred types / already sorted, add_relationship, normalize_entity "
        "with every kind of argument, update_data, delete_variables, convert_variable_type, set_time_index, interesting values, concat, "
        "deepcopy, metadata) beside an independent model of the logical tables (lists of dicts); monitors after every edit: the data of "
        "every entity, its order, index, types, relationships, times and metadata agree with the model and with each other; edits which "
        "must be rejected are, and leave everything as it was; copies are independent; distinct = edit sequences")
OPS = ["load", "relate", "normalize", "update", "delete", "convert", "time_index", "interesting", "lti", "concat", "deepcopy", "bad"]
BAD = ["rel_index", "rel_dtype", "rel_parent", "upd_dup", "upd_missing", "upd_extra", "norm_index", "norm_time", "norm_unknown", "norm_dup", "norm_mti",
       "norm_both", "load_dup", "load_time", "load_same", "load_cols", "load_notime", "load_type", "load_missing", "concat", "conv_text", "conv_kind",
       "del_unknown", "del_notlist", "time_text", "sec_text", "dup_rel"]
NEED = dict({"op:" + o: 100 for o in OPS}, cells=50000, states=3000, rejected=200, normalized_rows=500, moved=60, copied=60, metadata=1000, interesting_kept=200, **{"bad:" + b: 3 for b in BAD})


class T:
    """the logical content of one entity"""

    def __init__(self, index, time, types, rows):
        self.index, self.time, self.types, self.rows = index, time, dict(types), rows
        self.secondary = {}
        self.created = False
        self.desc, self.iv = {}, {}

    def sort(self):
        if self.time:
            self.rows.sort(key=lambda r: (r[self.time], r[self.index] is None, "" if r[self.index] is None else r[self.index]))

    def cols(self):
        return list(self.types)


class M:
    def __init__(self):
        self.t = {}
        self.rels = []
        self.log = []

    def linked(self, name):
        return {c for p, pc, ch, c in self.rels if ch == name} | ({self.t[name].index} if any(p == name for p, _, _, _ in self.rels) else set())


def rows_of(df):
    cols = list(df.columns)
    return [dict(zip(cols, [norm(v) for v in r])) for r in df.itertuples(index=False, name=None)]


def agree(rec, es, m, timekind):
    """model, data and metadata tell the same story"""
    rec.event("states")
    log = lambda: " after %s" % (m.log[-6:],)
    rec.check([e.id for e in es.entities] == list(m.t), "entities", lambda: "%s wanted %s%s" % ([e.id for e in es.entities], list(m.t), log()))
    for name, t in m.t.items():
        e = es[name]
        cols = list(e.df.columns)
        rec.check(cols == [v.id for v in e.variables], "columns-variables", lambda: "%s: %s, variables %s%s" % (name, cols, e.variables, log()))
        rec.check(sorted(cols) == sorted(t.cols()), "columns", lambda: "%s: %s wanted %s%s" % (name, cols, t.cols(), log()))
        rec.check(e.index == t.index and cols and cols[0] == t.index, "index-first", lambda: "%s: index %s of %s, wanted %s%s" % (name, e.index, cols, t.index, log()))
        rec.check([norm(x) for x in e.df.index] == [norm(x) for x in e.df[e.index]] and e.df.index.is_unique, "index-labels",
                  lambda: "%s: labels %s, ids %s%s" % (name, list(e.df.index), list(e.df[e.index]), log()))
        rec.check(e.time_index == t.time, "time-index", lambda: "%s: %s wanted %s%s" % (name, e.time_index, t.time, log()))
        got = rows_of(e.df)
        rec.event("cells", len(got) * len(cols))
        key = [r.get(t.index) for r in got]
        want = [r[t.index] for r in t.rows]
        rec.check(key == want, "rows", lambda: "%s: rows %s wanted %s%s" % (name, key, want, log()))
        if key == want:
            for g, r in zip(got, t.rows):
                bad = [c for c in t.types if g.get(c) != r[c] and not (g.get(c) != g.get(c) and r[c] != r[c])]
                if bad:
                    rec.violation("data", "%s row %r column %s: %r wanted %r%s" % (name, r[t.index], bad[0], g.get(bad[0]), r[bad[0]], log()))
                    break
        kinds = {v.id: type(v) for v in e.variables}
        bad = {c: (kinds.get(c), k) for c, k in t.types.items() if kinds.get(c) is not k}
        rec.check(not bad, "types", lambda: "%s: %s%s" % (name, bad, log()))
        rec.check([v for v in e.variables if v.entity is not e] == [], "variables-entity", lambda: "%s%s" % (name, log()))
        rec.check({k: sorted(v) for k, v in e.secondary_time_index.items()} == {k: sorted(v) for k, v in t.secondary.items()}, "secondary",
                  lambda: "%s: %s wanted %s%s" % (name, e.secondary_time_index, t.secondary, log()))
        for c, d in t.desc.items():
            rec.check(e[c].description == d, "description", lambda: "%s.%s: %r wanted %r%s" % (name, c, e[c].description, d, log()))
        for c, d in t.iv.items():
            rec.event("interesting_kept")
            rec.check([norm(x) for x in e[c].interesting_values] == d, "interesting-values", lambda: "%s.%s: %r wanted %r%s" % (name, c, list(e[c].interesting_values), d, log()))
        if e.last_time_index is not None:
            rec.check(sorted(map(repr, map(norm, e.last_time_index.index))) == sorted(map(repr, want)), "lti-rows",
                      lambda: "%s: last time index of %s, rows %s%s" % (name, list(e.last_time_index.index), want, log()))
    rels = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships]
    rec.check(rels == m.rels, "relationships", lambda: "%s wanted %s%s" % (rels, m.rels, log()))
    for r in es.relationships:
        rec.check(r.entityset is es or r.child_entity.entityset is es, "relationship-owner", lambda: "%s%s" % (r, log()))
        rec.check(r.parent_entity.df[r.parent_variable.id].dtype == r.child_entity.df[r.child_variable.id].dtype or r.child_entity.df.empty or
                  r.parent_entity.df.empty, "link-dtypes",
                  lambda: "%s: %s %s%s" % (r, r.parent_entity.df[r.parent_variable.id].dtype, r.child_entity.df[r.child_variable.id].dtype, log()))
    timed = [t for t in m.t.values() if t.time]
    if timed:
        rec.check(es.time_type is timekind, "time-type", lambda: "%s wanted %s%s" % (es.time_type, timekind, log()))


def metadata(rec, es, m):
    """what the metadata says is what the EntitySet is"""
    rec.event("metadata")
    md = es.metadata
    a, b = snap.es_state(es, data=False), snap.es_state(md, data=False)
    for s in (a, b):
        for e in [k for k in s if k.startswith("e:")]:
            s[e] = dict(s[e], vars=[v[:2] + v[3:] for v in s[e]["vars"]], created_index=None,
                        secondary={k: sorted(v) for k, v in s[e]["secondary"].items()})
    for s in (a, b):
        s["entities"].sort()
    d = snap.diff_state(a, b)
    rec.check(d is None, "metadata", lambda: "%s after %s" % (d, m.log[-6:]))


TYPES = {"num": vt.Numeric, "int": vt.Numeric, "bool": vt.Boolean, "cat": vt.Categorical, "ord": vt.Ordinal, "dt": vt.Datetime, "text": vt.NaturalLanguage,
         "zip": vt.ZIPCode, "dob": vt.DateOfBirth}


class World:
    """the pool of tables to load"""

    def __init__(self, rng):
        self.w = gen.gen_world(rng, n_tables=rng.choice([2, 3, 4]), kinds=("num", "int", "bool", "cat", "cat", "ord", "dt", "text", "zip"),
                               empty_tables=0.05, nulls=rng.choice([0, 0.2]), secondary=0.35, idkind=rng.choice(["int", "str", "int_neg"]), dangling=rng.choice([0, 0.05]),
                               max_rows=10)
        self.left = list(self.w.tables)
        rng.shuffle(self.left)
        self.timekind = vt.DatetimeTimeIndex if self.w.time_kind == "datetime" else vt.NumericTimeIndex
        self.n = 0

    def name(self, base):
        self.n += 1
        return "%s_%d" % (base, self.n)


def case(rng, rec, tier):
    pool = World(rng)
    w = pool.w
    es, m = ft.EntitySet("es"), M()
    frozen = []
    for step in range(rng.randint(6, 16)):
        op = "load" if not m.t else rng.choice(OPS + ["load", "relate", "normalize", "normalize", "update", "bad", "bad"])
        before = len(m.log)
        res = globals()["op_" + op](rng, rec, pool, es, m)
        if res is None:
            continue
        if res is not True:
            old, es = es, res
            frozen.append((old, snap.es_state(old), op))
        rec.event("op:" + op)
        if len(m.log) == before:
            m.log.append(op)
        agree(rec, es, m, pool.timekind)
        if rng.random() < 0.4:
            metadata(rec, es, m)
        if rec.violations:
            return
    metadata(rec, es, m)
    for old, state, op in frozen:
        d = snap.diff_state(state, snap.es_state(old))
        rec.check(d is None, "copy-aliases", lambda: "the EntitySet before %s changed later: %s (%s)" % (op, d, m.log))
    rec.nontrivial(m.log)
    rec.sample({"edits": m.log})


def logical(w, name, rows):
    return [{c: norm(r[c]) for c in w.tables[name].kinds} for r in rows]


def op_load(rng, rec, pool, es, m):
    if not pool.left:
        return None
    w = pool.w
    name = pool.left.pop()
    t = w.tables[name]
    rows = list(t.rows)
    if t.time_index:
        rng.shuffle(rows)
    cols = t.cols()
    rng.shuffle(cols)
    df = gen.frame(w, name, rows, cols)
    r = rng.random()
    already = False
    if t.time_index and r < 0.15:
        rows.sort(key=lambda x: (x[t.time_index], x[t.index]))
        df = gen.frame(w, name, rows, cols)
        already = True
    declared = gen.vtypes_for(w, name)
    types = {}
    spelled = {}
    for c, k in t.kinds.items():
        types[c] = declared.get(c) or {"fk": None, "index": vt.Index, "time": pool.timekind, "sec": vt.Numeric if w.time_kind == "numeric" else vt.Datetime,
                                       "latlong": vt.LatLong}.get(k) or TYPES.get(k)
        if types[c] is None:      # a link column before it is linked: inferred
            types[c] = vt.Numeric if df[c].dtype.kind in "iuf" else vt.Categorical
            declared[c] = types[c]
        if c in declared:
            spelled[c] = rng.choice([declared[c], declared[c], declared[c].type_string, (declared[c], {})])
    created = None
    index = t.index
    if rng.random() < 0.15:
        created = pool.name("made")
        index = created
        spelled[t.index] = vt.Categorical
        types[t.index] = vt.Categorical
        types[created] = vt.Index
    kw = {}
    if rng.random() < 0.2 and not created and t.index in cols:
        df = df[[t.index] + [c for c in cols if c != t.index]]
        kw["index"] = None
    else:
        kw["index"] = index
    if created and rng.random() < 0.6:
        kw["make_index"] = True
    es.entity_from_dataframe(name, df, time_index=t.time_index, variable_types=dict(spelled) or None, already_sorted=already,
                             secondary_time_index={k: list(v) for k, v in t.secondary.items()} or None, **kw)
    x = T(index, t.time_index, types, logical(w, name, rows))
    if created:
        for i, row in enumerate(x.rows):
            row[created] = float(i) if isinstance(norm(1), float) else norm(i)
        x.created = True
    x.secondary = {k: list(v) + ([k] if k not in v else []) for k, v in t.secondary.items()}
    if not already:
        x.sort()
    m.t[name] = x
    m.log.append("load %s%s" % (name, " make_index" if created else ""))
    return True


def op_relate(rng, rec, pool, es, m):
    w = pool.w
    cand = [(p, w.tables[p].index, c, col) for p, c, col in w.rels if p in m.t and c in m.t and not m.t[p].created and col in m.t[c].types
            and (p, w.tables[p].index, c, col) not in m.rels and m.t[c].index != col and m.t[c].time != col]
    cand = [r for r in cand if r[0] in es.entity_dict and es[r[0]].index == r[1] and es[r[0]].df[r[1]].dtype == es[r[2]].df[r[3]].dtype]
    if not cand:
        return None
    p, pc, c, col = rng.choice(cand)
    r = ft.Relationship(es[p][pc], es[c][col])
    if rng.random() < 0.5:
        es.add_relationship(r)
    else:
        es.add_relationships([r])
    m.rels.append((p, pc, c, col))
    m.t[c].types[col] = vt.Id
    m.t[c].iv.pop(col, None)
    m.t[p].types[pc] = vt.Index
    m.log.append("relate %s.%s->%s" % (c, col, p))
    return True


def plain(t):
    return vt.Datetime if t is vt.DatetimeTimeIndex else vt.Numeric if t is vt.NumericTimeIndex else t


def op_normalize(rng, rec, pool, es, m):
    base = rng.choice(list(m.t))
    t = m.t[base]
    linked = m.linked(base)
    cand = [c for c in t.types if c not in (t.index, t.time) and c not in linked and es[base].df[c].dtype.kind in "iO" and t.types[c] is not vt.NaturalLanguage
            and not any(c == s or c in cs for s, cs in t.secondary.items())]
    if not cand or not t.rows:
        return None
    index = rng.choice(cand)
    if len({repr(x) for x in es[base].df[index] if x is None or x != x}) > 1:
        return None           # two kinds of missing values would be two instances
    rest = [c for c in t.types if c not in (index, t.index, t.time) and c not in linked]
    rng.shuffle(rest)
    add = rest[:rng.choice([0, 0, 1, 2])]
    cp = rest[len(add):len(add) + rng.choice([0, 0, 1, 2])]
    new = pool.name("new")
    kw = {}
    time, src = None, None
    types = {index: vt.Index}
    for c in add + cp:
        types[c] = plain(t.types[c])
    r = rng.random()
    dts = [c for c in add + cp if t.types[c] is vt.Datetime and pool.timekind is vt.DatetimeTimeIndex and all(x[c] is not None for x in t.rows)]
    resort = False
    if dts and r < 0.5:
        time = src = kw["make_time_index"] = rng.choice(dts)
        resort = True
    elif r < 0.7 and t.time:
        if rng.random() < 0.5:
            kw["make_time_index"] = True
        src = t.time
        time = "first_%s_time" % base
        if rng.random() < 0.4:
            time = kw["new_entity_time_index"] = pool.name("t")
    elif t.time:
        kw["make_time_index"] = False
    if time in types and src != time:
        return None
    first, last = {}, {}
    for row in t.rows:
        first.setdefault(row[index], row)
        last[row[index]] = row
    if src:
        types[time] = pool.timekind
    sec = {}
    if t.time and rng.random() < 0.25 and pool.timekind is vt.DatetimeTimeIndex:
        other = [c for c in rest if c not in add + cp and t.types[c] is not vt.Id]
        dt2 = [c for c in other if t.types[c] is vt.Datetime and all(x[c] is not None for x in t.rows)]
        if len(other) >= 2 and dt2:
            s = rng.choice(dt2)
            vs = [c for c in other if c != s][:rng.randint(1, 2)]
            kw["make_secondary_time_index"] = {s: list(vs)}
            sname = s
            if rng.random() < 0.5:
                sname = kw["new_entity_secondary_time_index"] = pool.name("s")
            sec = {sname: (s, vs)}
    rows = []
    for k, row in first.items():
        x = {index: k}
        for c in add + cp:
            x[c] = row[c]
        if src:
            x[time] = row[src]
        for sname, (s, vs) in sec.items():
            x[sname] = last[k][s]
            for c in vs:
                x[c] = last[k][c]
        rows.append(x)
    for sname, (s, vs) in sec.items():
        types[sname] = vt.Datetime
        for c in vs:
            types[c] = None
    kw2 = dict(kw)
    if add or rng.random() < 0.5:
        kw2["additional_variables"] = list(add)
    if cp or rng.random() < 0.5:
        kw2["copy_variables"] = list(cp)
    es.normalize_entity(base, new, index, **kw2)
    x = T(index, time if src else None, types, rows)
    for c in [c for c, k in types.items() if k is None]:
        types[c] = x.types[c] = type(es[new][c])       # inferred
    x.secondary = {sname: list(vs) + [sname] for sname, (s, vs) in sec.items()}
    if resort:
        x.sort()
    m.t[new] = x
    for c in add:
        del t.types[c]
        for row in t.rows:
            row.pop(c)
        forget(t, c)
    t.types[index] = vt.Id
    t.iv.pop(index, None)
    m.rels.append((new, index, base, index))
    rec.event("normalized_rows", len(rows))
    rec.event("moved", len(add))
    rec.event("copied", len(cp))
    m.log.append("normalize %s by %s %s" % (base, index, kw2))
    return True


def forget(t, c):
    """a column that is gone cannot be hidden by, or be, a secondary time"""
    t.desc.pop(c, None)
    t.iv.pop(c, None)
    t.secondary.pop(c, None)
    for s in t.secondary:
        t.secondary[s] = [x for x in t.secondary[s] if x != c]


def changed_rows(rng, es, name, t, grow=True):
    """a new dataframe for an entity: some rows dropped, some cells changed, some rows new"""
    df = es[name].df.copy()
    keep = [i for i in range(len(df)) if rng.random() < 0.8]
    df = df.iloc[keep].reset_index(drop=True)
    rows = [dict(t.rows[i]) for i in keep]
    for c in t.types:
        if c == t.index or len(df) < 2 or rng.random() < 0.6 or c in t.secondary:
            continue
        perm = list(range(len(df)))
        rng.shuffle(perm)
        df[c] = df[c].iloc[perm].values
        vals = [rows[p][c] for p in perm]
        for r, v in zip(rows, vals):
            r[c] = v
    if grow and len(df):
        k = rng.randint(0, 2)
        ids = list(es[name].df[t.index])
        for j in range(k):
            src = rng.randrange(len(keep))
            new = df.iloc[[src]].copy()
            nid = (max(ids) + 1 + j) if df[t.index].dtype.kind in "iu" else "new%d" % rng.randrange(10 ** 9)
            if df[t.index].dtype.kind not in "iuO":
                break
            new[t.index] = nid
            df = pd.concat([df, new], ignore_index=True)
            r = dict(rows[src])
            r[t.index] = norm(nid)
            rows.append(r)
    return df, rows


def op_update(rng, rec, pool, es, m):
    name = rng.choice(list(m.t))
    t = m.t[name]
    df, rows = changed_rows(rng, es, name, t)
    order = list(range(len(df)))
    if t.time:
        rng.shuffle(order)
    df = df.iloc[order]
    rows = [rows[i] for i in order]
    cols = list(df.columns)
    rng.shuffle(cols)
    kw = {}
    if t.time and rng.random() < 0.2:
        df = df.sort_values([t.time, t.index])
        kw["already_sorted"] = True
    es[name].update_data(df[cols], **kw)
    t.rows = rows
    t.sort()
    m.log.append("update %s" % name)
    return True


def op_delete(rng, rec, pool, es, m):
    name = rng.choice(list(m.t))
    t = m.t[name]
    cand = [c for c in t.types if c not in (t.index, t.time) and c not in m.linked(name)]
    if not cand:
        return None
    cs = rng.sample(cand, rng.randint(0, min(2, len(cand))))
    es[name].delete_variables(list(cs))
    for c in cs:
        del t.types[c]
        for r in t.rows:
            r.pop(c)
        forget(t, c)
    m.log.append("delete %s %s" % (name, cs))
    return True


def op_convert(rng, rec, pool, es, m):
    name = rng.choice(list(m.t))
    t = m.t[name]
    cand = [c for c in t.types if c not in (t.index, t.time) and c not in m.linked(name) and not any(c == s or c in v for s, v in t.secondary.items())]
    if not cand:
        return None
    c = rng.choice(cand)
    e = es[name]
    col = e.df[c]
    kw = {}
    e[c].description = t.desc[c] = "about %s" % c
    if rng.random() < 0.4:
        new = rng.choice([vt.Categorical, vt.Ordinal, vt.NaturalLanguage, vt.ZIPCode, vt.Unknown])
        kw["convert_data"] = False
    elif col.dtype.kind in "iufO" and rng.random() < 0.5:
        new = rng.choice([vt.Categorical, vt.Ordinal])
    elif col.dtype.kind == "i":
        new = vt.Numeric
    elif col.dtype.kind in "O" and len(t.rows):
        vals = [r[c] for r in t.rows]
        new = vt.Boolean
        tv = next((v for v in vals if v is not None), None)
        others = {v for v in vals if v is not None and v != tv}
        if len(others) > 1 or None in vals or tv is None:
            return None
        kw.update(true_val=tv, false_val=next(iter(others)) if others else "never")
        for r in t.rows:
            r[c] = norm(r[c] == tv)
    else:
        return None
    e.convert_variable_type(c, new, **kw)
    t.types[c] = new
    t.iv.pop(c, None)
    m.log.append("convert %s.%s to %s %s" % (name, c, new.__name__, kw))
    return True


def op_time_index(rng, rec, pool, es, m):
    name = rng.choice(list(m.t))
    t = m.t[name]
    want = vt.Datetime if pool.timekind is vt.DatetimeTimeIndex else vt.Numeric
    cand = [c for c in t.types if t.types[c] in (want, pool.timekind) and c not in m.linked(name) and c not in t.secondary and all(r[c] is not None and r[c] == r[c] for r in t.rows)
            and c != t.index and (es[name].df[c].dtype.kind == "M" or want is vt.Numeric and es[name].df[c].dtype.kind in "if")]
    if not cand or not t.rows:
        return None
    c = rng.choice(cand)
    old = t.time
    es[name].set_time_index(c)
    t.time = c
    t.types[c] = pool.timekind
    t.iv.pop(c, None)
    t.sort()
    m.log.append("time_index %s.%s (was %s)" % (name, c, old))
    return True


def op_interesting(rng, rec, pool, es, m):
    name = rng.choice(list(m.t))
    r = rng.random()
    if r < 0.3:
        es.add_interesting_values(max_values=rng.choice([1, 5]))
        for t in m.t.values():
            t.iv = {}
    elif r < 0.6:
        es[name].add_interesting_values(max_values=rng.choice([1, 3]))
        m.t[name].iv = {}
    else:
        cand = [c for c in m.t[name].types if m.t[name].types[c] in (vt.Categorical, vt.Ordinal, vt.Boolean)]
        if not cand:
            return None
        c = rng.choice(cand)
        vals = list(es[name].df[c].dropna().unique()[:2])
        es[name][c].interesting_values = vals
        m.t[name].iv[c] = [norm(x) for x in vals]
        d = rng.choice(list(m.t[name].types))
        es[name][d].description = m.t[name].desc[d] = "text on %s" % d
        rec.check([norm(x) for x in es[name][c].interesting_values] == [norm(x) for x in vals], "interesting-set", lambda: "%s.%s" % (name, c))
    m.log.append("interesting")
    return True


def op_lti(rng, rec, pool, es, m):
    es.add_last_time_indexes()
    m.log.append("lti")
    return True


def op_deepcopy(rng, rec, pool, es, m):
    new = copy.deepcopy(es)
    rec.check(new.__eq__(es, deep=True) and es.__eq__(new, deep=True) and not es.__ne__(new, deep=True), "copy-not-equal", lambda: "%s" % m.log)
    m.log.append("deepcopy")
    return new


def op_concat(rng, rec, pool, es, m):
    if any(not t.rows for t in m.t.values()):
        return None
    other = copy.deepcopy(es)
    add = {}
    for name, t in m.t.items():
        if rng.random() < 0.6:
            df, rows = changed_rows(rng, es, name, t, grow=not t.created)
            if t.created or rng.random() < 0.5:
                keep = set(rng.sample(range(len(t.rows)), rng.randint(1, len(t.rows))))
                df = es[name].df.iloc[sorted(keep)]
                rows = [dict(t.rows[i]) for i in sorted(keep)]
            other[name].update_data(df, recalculate_last_time_indexes=False)
            add[name] = rows
    for name in m.t:
        if any(es[name].df[c].dtype != other[name].df[c].dtype for c in m.t[name].types):
            return None
    ostate = snap.es_state(other)
    had = {name: es[name].last_time_index is not None for name in m.t}
    inplace = rng.random() < 0.3
    new = es.concat(other, inplace=inplace)
    for name, rows in add.items():
        t = m.t[name]
        have = {r[t.index] for r in t.rows}
        t.rows = t.rows + [r for r in rows if r[t.index] not in have]
    for name, t in m.t.items():
        if t.time:
            t.sort()
        else:
            try:
                t.rows.sort(key=lambda r: r[t.index])
            except TypeError:
                t.rows = [dict(r) for r in rows_of(new[name].df)]      # mixed ids have no order
    rec.check(snap.diff_state(ostate, snap.es_state(other)) is None, "concat-changed-other", lambda: "%s" % (m.log,))
    if not any(had.values()):
        rec.check(all(e.last_time_index is None for e in new.entities), "concat-made-lti", lambda: "last time indexes appeared %s" % m.log)
    m.log.append("concat%s" % (" inplace" if inplace else ""))
    rec.check((new is es) == inplace, "concat-inplace", lambda: "%s" % inplace)
    return True if inplace else new


def op_bad(rng, rec, pool, es, m):
    """edits that must be rejected, and then must not have changed anything"""
    bad = rng.choice(BAD)
    make = globals()["bad_" + bad](rng, pool, es, m)
    if make is None:
        return None
    before = snap.es_state(es)
    try:
        make()
    except Exception as e:
        err = e
    else:
        rec.violation("accepted:" + bad, "%s was accepted after %s" % (bad, m.log))
        return True
    rec.event("rejected")
    rec.event("bad:" + bad)
    d = snap.diff_state(before, snap.es_state(es))
    rec.check(d is None, "rejected-but-changed:" + bad, lambda: "%s raised %s, but %s; after %s" % (bad, type(err).__name__, d, m.log))
    m.log.append("bad " + bad)
    return True


def pick(rng, m, ok=lambda n, t: True):
    cand = [(n, t) for n, t in m.t.items() if ok(n, t)]
    return rng.choice(cand) if cand else (None, None)


def bad_rel_index(rng, pool, es, m):
    if len(m.t) < 2:
        return None
    a, b = rng.sample(list(m.t), 2)
    return lambda: es.add_relationship(ft.Relationship(es[a][m.t[a].index], es[b][m.t[b].index]))


def bad_rel_parent(rng, pool, es, m):
    if len(m.t) < 2:
        return None
    a, b = rng.sample(list(m.t), 2)
    ca = [c for c in m.t[a].types if c != m.t[a].index]
    cb = [c for c in m.t[b].types if c != m.t[b].index]
    if not ca or not cb:
        return None
    return lambda: es.add_relationship(ft.Relationship(es[a][rng.choice(ca)], es[b][rng.choice(cb)]))


def bad_rel_dtype(rng, pool, es, m):
    if len(m.t) < 2:
        return None
    a, b = rng.sample(list(m.t), 2)
    if es[a].df.empty or es[b].df.empty:
        return None
    cb = [c for c in m.t[b].types if c != m.t[b].index and c != m.t[b].time and c not in m.linked(b) and es[b].df[c].dtype != es[a].df[m.t[a].index].dtype]
    if not cb:
        return None
    c = rng.choice(cb)
    return lambda: es.add_relationship(ft.Relationship(es[a][m.t[a].index], es[b][c]))


def bad_dup_rel(rng, pool, es, m):
    """not an error, but nothing changes"""
    if not es.relationships:
        return None
    r = rng.choice(es.relationships)

    def go():
        es.add_relationship(ft.Relationship(r.parent_variable, r.child_variable))
        raise ValueError
    return go


def bad_upd_dup(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: len(t.rows) > 1)
    if n is None:
        return None
    df = pd.concat([es[n].df, es[n].df.iloc[[0]]])
    return lambda: es[n].update_data(df)


def bad_upd_missing(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: len(t.types) > 1)
    if n is None:
        return None
    c = rng.choice(list(t.types))
    df = es[n].df.rename(columns={c: c + "?"}) if rng.random() < 0.5 else es[n].df.drop(columns=[c])
    return lambda: es[n].update_data(df)


def bad_upd_extra(rng, pool, es, m):
    n, t = pick(rng, m)
    df = es[n].df.assign(more=1)
    return lambda: es[n].update_data(df)


def normal(rng, m, es):
    n, t = pick(rng, m, lambda n, t: len([c for c in t.types if c not in (t.index, t.time)]) >= 2 and t.rows)
    if n is None:
        return None
    free = [c for c in t.types if c not in (t.index, t.time)]
    rng.shuffle(free)
    return n, t, free


def bad_norm_index(rng, pool, es, m):
    x = normal(rng, m, es)
    return x and (lambda: es.normalize_entity(x[0], "never", x[1].index))


def bad_norm_time(rng, pool, es, m):
    x = normal(rng, m, es)
    if not x or not x[1].time:
        return None
    return lambda: es.normalize_entity(x[0], "never", x[2][0], additional_variables=[x[1].time])


def bad_norm_unknown(rng, pool, es, m):
    x = normal(rng, m, es)
    if not x:
        return None
    if rng.random() < 0.5:
        return lambda: es.normalize_entity(x[0], "never", "no such column")
    return lambda: es.normalize_entity(x[0], "never", x[2][0], additional_variables=["no such column"])


def bad_norm_dup(rng, pool, es, m):
    x = normal(rng, m, es)
    if not x:
        return None
    kw = rng.choice([dict(additional_variables=[x[2][1]] * 2), dict(copy_variables=[x[2][1]] * 2), dict(additional_variables=[x[2][0]]),
                     dict(copy_variables=[x[2][0]]), dict(additional_variables=x[2][1]), dict(copy_variables=x[2][1])])
    return lambda: es.normalize_entity(x[0], "never", x[2][0], **kw)


def bad_norm_mti(rng, pool, es, m):
    x = normal(rng, m, es)
    if not x:
        return None
    if x[1].time is None and rng.random() < 0.5:
        return lambda: es.normalize_entity(x[0], "never", x[2][0], make_time_index=True)
    return lambda: es.normalize_entity(x[0], "never", x[2][0], make_time_index=rng.choice([x[2][1], "no such column"]))


def bad_norm_both(rng, pool, es, m):
    """the new time index cannot be the new index, nor have a type that is no time"""
    x = normal(rng, m, es)
    if not x:
        return None
    texts = [c for c in x[2][1:] if es[x[0]].df[c].dtype == object and all(isinstance(r[c], str) and not r[c].isdigit() and r[c][:1].isalpha() for r in x[1].rows)]
    if texts and rng.random() < 0.5:
        return lambda: es.normalize_entity(x[0], "never", x[2][0], additional_variables=[texts[0]], make_time_index=texts[0])
    if x[1].time:
        return lambda: es.normalize_entity(x[0], "never", x[2][0], new_entity_time_index=x[2][0])
    return None


def some_df(rng, pool, m):
    base = pd.Timestamp("2020-01-01")
    n = rng.randint(2, 4)
    return pd.DataFrame({"id": range(n), "when": [base + pd.Timedelta(i, "h") for i in range(n)], "num": [float(i) for i in range(n)], "txt": ["w%d" % i for i in range(n)]})


def bad_load_dup(rng, pool, es, m):
    df = some_df(rng, pool, m)
    df["id"] = 1
    return lambda: es.entity_from_dataframe("never", df, index="id", time_index=rng.choice([None, "num" if pool.timekind is vt.NumericTimeIndex else "when"]))


def bad_load_time(rng, pool, es, m):
    if es.time_type is None:
        return None
    df = some_df(rng, pool, m)
    return lambda: es.entity_from_dataframe("never", df, index="id", time_index="when" if pool.timekind is vt.NumericTimeIndex else "num")


def bad_load_same(rng, pool, es, m):
    df = some_df(rng, pool, m)
    return lambda: es.entity_from_dataframe("never", df, index="when", time_index="when")


def bad_load_cols(rng, pool, es, m):
    df = some_df(rng, pool, m)
    df.columns = rng.choice([["id", "when", "num", "num"], ["id", "when", "num", 3]])
    return lambda: es.entity_from_dataframe("never", df, index="id")


def bad_load_notime(rng, pool, es, m):
    df = some_df(rng, pool, m)
    return lambda: es.entity_from_dataframe("never", df, index="id", time_index="no such column")


def bad_load_type(rng, pool, es, m):
    """the time index is fine, something later is not"""
    df = some_df(rng, pool, m)
    ti, bad = ("num", "when") if pool.timekind is vt.NumericTimeIndex else ("when", "num")
    kw = rng.choice([dict(secondary_time_index={bad: ["txt"]}), dict(secondary_time_index={"txt": ["num"]}), dict(variable_types={"no such column": vt.Numeric}),
                     dict(variable_types={"txt": vt.Numeric})])
    if rng.random() < 0.5 and "secondary_time_index" in kw:     # nothing was timed before
        es2 = ft.EntitySet("fresh")

        def go():
            try:
                es2.entity_from_dataframe("never", df, index="id", time_index=ti, **kw)
            except Exception:
                try:        # it must be free to be of the other kind now
                    es2.entity_from_dataframe("now", df, index="id", time_index=bad)
                except Exception:
                    return None
                if [e.id for e in es2.entities] != ["now"]:
                    return None
                raise
        return go
    return lambda: es.entity_from_dataframe("never", df, index="id", time_index=ti, **kw)


def bad_load_missing(rng, pool, es, m):
    df = some_df(rng, pool, m)
    return lambda: es.entity_from_dataframe("never", df, index="num", make_index=True)


def bad_concat(rng, pool, es, m):
    other = copy.deepcopy(es)
    r = rng.random()
    n, t = pick(rng, m, lambda n, t: len([c for c in t.types if c not in (t.index, t.time) and c not in m.linked(n)]) > 0)
    if r < 0.5 and n:
        c = rng.choice([c for c in t.types if c not in (t.index, t.time) and c not in m.linked(n)])
        other[n].delete_variables([c])
    elif es.relationships:
        other.relationships = other.relationships[:-1]
    else:
        return None
    return lambda: es.concat(other, inplace=True)


def bad_conv_text(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: any(k is vt.NaturalLanguage or k is vt.Categorical for k in t.types.values()))
    if n is None:
        return None
    cs = [c for c, k in t.types.items() if k in (vt.NaturalLanguage, vt.Categorical) and es[n].df[c].dtype == object and len(t.rows) and c not in m.linked(n)
          and any(r[c] is not None for r in t.rows) and not any(r[c] is not None and str(r[c])[:1].isdigit() for r in t.rows)]
    if not cs:
        return None
    c = rng.choice(cs)
    return lambda: es[n].convert_variable_type(c, vt.Numeric)


def bad_conv_kind(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: len(t.rows) and any(c not in (t.index, t.time) for c in t.types))
    if n is None:
        return None
    c = rng.choice([c for c in t.types if c not in (t.index, t.time)])
    return lambda: es[n].convert_variable_type(c, rng.choice([vt.LatLong, vt.NaturalLanguage]))


def bad_del_unknown(rng, pool, es, m):
    n, t = pick(rng, m)
    cs = [c for c in t.types if c not in (t.index, t.time)][:1]
    return lambda: es[n].delete_variables(cs + ["no such column"])


def bad_del_notlist(rng, pool, es, m):
    n, t = pick(rng, m)
    return lambda: es[n].delete_variables(rng.choice(list(t.types)))


def bad_time_text(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: len(t.rows) and any(k is vt.NaturalLanguage for k in t.types.values()))
    if n is None:
        return None
    cs = [c for c, k in t.types.items() if k is vt.NaturalLanguage and es[n].df[c].dtype == object and all(isinstance(r[c], str) and r[c][:1].isalpha() for r in t.rows)]
    if not cs:
        return None
    return lambda: es[n].set_time_index(cs[0])


def bad_sec_text(rng, pool, es, m):
    n, t = pick(rng, m, lambda n, t: len(t.rows) and any(k is vt.NaturalLanguage for k in t.types.values()))
    if n is None:
        return None
    cs = [c for c, k in t.types.items() if k is vt.NaturalLanguage and es[n].df[c].dtype == object and all(isinstance(r[c], str) and r[c][:1].isalpha() for r in t.rows)]
    if not cs:
        return None
    return lambda: es[n].set_secondary_time_index({cs[0]: [t.index]})
