"""C24: descriptions, lineage graphs and plots tell what a feature or EntitySet is."""
import html
import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile

import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from featuretools.feature_base import AggregationFeature, DirectFeature, GroupByTransformFeature, TransformFeature
from featuretools.entityset.relationship import RelationshipPath
from .. import feat, gen, ref
from ..workload import nmc_feature

CASES = {"quick": 260, "thorough": 4000}
RULE = ("random stacked features (also multi-output ones with slices, directs of them, groupby, where, use_previous, operators with values of any text) "
        "over EntitySets with hostile names, described with random custom descriptions (by feature or name, of any inner feature, of variables), "
        "templates (by name or primitive, lists) and metadata files; monitors: the text an independent reading of the definition gives; the graph, parsed "
        "from what graphviz makes of it, has exactly the lineage; plot has exactly the entities, variables and relationships; files land where asked; "
        "nothing is changed; distinct = (kinds of features inside, customization)")
NEED = {"descriptions": 2000, "custom": 500, "templates": 400, "metadata": 30, "where": 150, "use_previous": 60, "direct": 500, "groupby": 80, "slices": 80, "direct_slices": 15,
        "group_slices": 15, "graphs": 200, "graph_edges": 1000, "colons": 40, "plots": 60, "files": 60, "same_names": 10, "captions": 50, "values": 150}

TEXT = {
    "count": "the number", "sum": "the sum of {}", "mean": "the average of {}", "min": "the minimum of {}", "max": "the maximum of {}", "median": "the median of {}",
    "std": "the standard deviation of {}", "skew": "the skewness of {}", "num_unique": "the number of unique elements in {}", "mode": "the most frequently occurring value of {}",
    "num_true": "the number of times {} is true", "percent_true": "the percentage of true values in {}", "first": "the first instance of {}", "last": "the last instance of {}",
    "any": "whether any of {} are true", "all": "whether all of {} are true", "entropy": "the entropy of {}", "time_since_last": "the time since the last {}",
    "time_since_first": "the time since the first {}", "avg_time_between": "the average time between each of {}", "trend": "the linear trend of {} over time",
    "is_null": "whether {} is null", "absolute": "the absolute value of {}", "negate": "the negation of {}", "not": "the negation of {}", "and": "whether {} and {} are true",
    "or": "whether {} is true or {} is true", "add_numeric": "the sum of {} and {}", "subtract_numeric": "the result of {} minus {}", "multiply_numeric": "the product of {} and {}",
    "divide_numeric": "the result of {} divided by {}", "greater_than": "whether {} is greater than {}", "less_than_equal_to": "whether {} is less than or equal to {}",
    "year": "the year of {}", "month": "the month of {}", "day": "the day of the month of {}", "hour": "the hour value of {}", "minute": "the minutes value of {}",
    "second": "the seconds value of {}", "weekday": "the day of the week of {}", "is_weekend": "whether {} occurred on a weekend", "week": "the week of the year of {}",
    "time_since": "the time from {} to the cutoff time", "num_characters": "the number of characters in {}", "num_words": "the number of words in {}", "age": "the age from {}",
    "cum_sum": "the cumulative sum of {}", "cum_count": "the cumulative count of {}", "cum_mean": "the cumulative mean of {}", "cum_min": "the cumulative minimum of {}",
    "cum_max": "the cumulative maximum of {}", "diff": "the difference from the previous value of {}", "percentile": "the percentile rank of {}",
    "time_since_previous": "the time since the previous instance of {}"}
VALUE = {
    "add_numeric_scalar": "the sum of {} and @", "subtract_numeric_scalar": "the result of {} minus @", "multiply_numeric_scalar": "the product of {} and @",
    "scalar_subtract_numeric_feature": "the result @ minus {}", "divide_numeric_scalar": "the result of {} divided by @", "divide_by_feature": "the result of @ divided by {}",
    "modulo_numeric_scalar": "the remainder after dividing {} by @", "modulo_by_feature": "the remainder after dividing @ by {}",
    "greater_than_scalar": "whether {} is greater than @", "greater_than_equal_to_scalar": "whether {} is greater than or equal to @", "less_than_scalar": "whether {} is less than @",
    "less_than_equal_to_scalar": "whether {} is less than or equal to @", "equal_scalar": "whether {} equals @", "not_equal_scalar": "whether {} does not equal @"}


class TwoSeq(P.TransformPrimitive):
    name = "two_seq"
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2
    uses_full_entity = True

    def get_function(self):
        return lambda x: (x, x)


class TwoRow(TwoSeq):
    name = "two_row"
    description_template = ["both of {}", "the {nth_slice} of both of {}"]


class TwoAgg(P.AggregationPrimitive):
    name = "two_agg"
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2
    description_template = ["the ends of {}", "the low end of {}", "the high end of {}"]


class NoText(P.TransformPrimitive):
    name = "no text"
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric


def nth(i):
    return "%d%s" % (i, "th" if i % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(i % 10, "th"))


def fill(text, inputs, n=None):
    """{} one after the other, {nth_slice}, nothing else"""
    out, it = [], iter(inputs)
    for part in re.split(r"(\{\}|\{nth_slice\})", text):
        out.append(next(it) if part == "{}" else nth(n + 1) if part == "{nth_slice}" else part)
    return "".join(out)


class Describer:
    def __init__(self, custom, templates):
        self.custom = custom            # [(feature, text)]
        self.templates = templates      # [(primitive name or instance, text or list)]

    def own(self, f):
        for g, text in self.custom:
            if g is f or (isinstance(g, str) and g == "%s: %s" % (f.entity.id, f.get_name())) or (not isinstance(g, str) and g.unique_name() == f.unique_name()):
                return text

    def primitive(self, f, n, inputs):
        p = f.primitive
        text = None
        for k, t in self.templates:
            if k is p or (isinstance(k, str) and k == p.name):
                text = t
                if k is p:
                    break
        if text is None:
            if p.name in TEXT:
                text = TEXT[p.name]
            elif p.name in VALUE:
                return str(p.value).join(fill(x, inputs) for x in VALUE[p.name].split("@"))
            elif p.name == "isin":
                return "whether %s is in %s" % (inputs[0], ", ".join(str(x) for x in p.list_of_outputs))
            elif p.name == "n_most_common":
                text = ["the %d most common values of {}" % p.n, "the most common value of {}"] + ["the {nth_slice} most common value of {}"] * (p.n - 1)
            elif p.name in ("two_row", "two_agg"):
                text = type(p).description_template
            else:
                out = "the result of" if n is None else "the %s output from" % nth(n + 1)
                return "%s applying %s to %s" % (out, p.name.upper(), ", ".join(inputs))
        if isinstance(text, list):
            text = text[0] if n is None else text[1] if len(text) == 2 else text[n + 1]
        return fill(text, inputs, n)

    def __call__(self, f):
        own = self.own(f)
        if own is not None:
            return own
        k, n = feat.kind(f), None
        if k == "id":
            return f.variable.description
        if k == "slice":
            n, f = f.n, f.base_feature
            k = feat.kind(f)
        if k == "direct":
            # through parents of parents in one phrase, unless one on the way has its own description
            chain, cur = [f], f.base_features[0]
            while feat.kind(cur) == "direct" and self.own(cur if n is None else cur[n]) is None:
                chain.append(cur)
                cur = cur.base_features[0]
            text = self(cur if n is None else cur[n]) + " for"
            for d in reversed(chain[1:]):
                text += ' the instance of "%s" associated with' % d.relationship_path[0][1].parent_entity.id
            return text + ' the instance of "%s" associated with this instance of "%s"' % (f.relationship_path[0][1].parent_entity.id, f.entity.id)
        bases = f.base_features[:-1] if k == "group" else f.base_features
        text = self.primitive(f, n, [self(b) for b in bases])
        by = None
        if k == "agg":
            text += ' of the previous %s of "%s"' % (f.use_previous.get_name().lower(), f.relationship_path[-1][1].child_entity.id) if f.use_previous else \
                ' of all instances of "%s"' % f.relationship_path[-1][1].child_entity.id
            if f.where is not None:
                if f.where.primitive.name == "equal_scalar" and self.own(f.where) is None:
                    text += " where %s is %s" % (self(f.where.base_features[0]), f.where.primitive.value)
                else:
                    text += " where %s is True" % self(f.where)
            index = ft.IdentityFeature(f.entity[f.entity.index])
            by = self.own(index) or '"%s" in "%s"' % (f.entity.index, f.entity.id)
        elif k == "group":
            by = self(f.groupby)
        if by is not None:
            text += " for each " + (by[4:] if by.startswith("the ") else by)
        return text


NAMES = ["cust", "log", "a b", "e:1", "x<y>", "o{p}", 'q"t', "p|q", "Ü&", "node", "it's"]


def decorate(rng, c):
    return c if rng.random() < 0.6 else rng.choice(["%s: at", "%s <b>", "%s & co", "{%s}", "%s|", '"%s"', "%s'", "the %s", "%s -> x"]) % c


def everything(f, memo=None):
    memo = {} if memo is None else memo
    if id(f) not in memo:
        memo[id(f)] = f
        for d in feat.deps(f):
            everything(d, memo)
    return list(memo.values())


def same_names(f):
    """features of the same name in different entities"""
    names = [n for _, n in {(x.entity.id, x.get_name()) for x in everything(f) if feat.kind(x) != "id"}]
    return len(set(names)) < len(names)


def more(rng, w, es, objs):
    """multi-output features, operators with values, graphs with two alike branches"""
    out = []
    m = nmc_feature(rng, w, es, rng.choice(list(w.tables)), P.NMostCommon(n=rng.choice([2, 3])))
    if m is not None:
        out += [m, m[rng.randrange(m.number_output_features)]]
        out.append(TransformFeature([m[0]], primitive=P.IsNull))
        rels = [r for r in es.relationships if r.parent_entity.id == m.entity.id]
        if rels:
            d = DirectFeature(m, rng.choice(rels).child_entity, relationship=None if len(rels) == 1 else rels[0]) if len(rels) == 1 else DirectFeature(m, rels[0].child_entity, relationship=rels[0])
            out += [d, d[1], TransformFeature([d[0]], primitive=P.IsNull)]
            below = [r for r in es.relationships if r.parent_entity.id == d.entity.id]
            if below:
                d2 = DirectFeature(d, below[0].child_entity, relationship=below[0])
                out += [d2[1], DirectFeature(d[1], below[0].child_entity, relationship=below[0])]
    nums = [o for o in objs if o.variable_type is vt.Numeric and feat.kind(o) != "slice"]
    for o in nums[:2]:
        v = rng.choice([2, -1.5, 10 ** 9])
        out.append(rng.choice([lambda: o + v, lambda: v - o, lambda: o / v, lambda: v / o, lambda: o % v, lambda: v % o, lambda: o > v, lambda: o != v])())
        cats = [x for x in es[o.entity.id].variables if type(x) in (vt.Categorical, vt.Id)]
        two = rng.choice([TwoSeq, TwoRow])
        if cats and rng.random() < 0.7:
            g = GroupByTransformFeature(o, primitive=two, groupby=ft.Feature(rng.choice(cats)))
            out += [g, g[0], g[1]]
        else:
            t = TransformFeature(o, primitive=two)
            out += [t, t[1]]
        up = [r for r in es.relationships if r.child_entity.id == o.entity.id]
        if up:
            a = AggregationFeature(o, up[0].parent_entity, TwoAgg, relationship_path=RelationshipPath([(False, up[0])]))
            out += [a[0], a[1]]
        out.append(TransformFeature([o, nums[0]], primitive=NoText) if nums[0].entity.id == o.entity.id else o + 1)
    for t in w.tables.values():
        for c, k in t.kinds.items():
            if k == "cat" and rng.random() < 0.5:
                x = ft.Feature(es[t.name][c])
                v = rng.choice(["red", "a:b", "{}", "{0}", "<b>", 'q"', "x}y{", "50%"])
                f = rng.choice([lambda: x == v, lambda: x != v, lambda: x.isin([v, "other"])])()
            elif k in ("dt", "time") and w.time_kind == "datetime" and rng.random() < 0.5:
                x = ft.Feature(es[t.name][c])
                f = rng.choice([lambda: x > pd.Timestamp("2020-01-01 05:00"), lambda: x <= pd.Timestamp("2019-03-01 05:00:07")])()
            elif k in ("num", "int") and rng.random() < 0.3:
                f = ft.Feature(es[t.name][c]) > rng.choice([0, 5.5])
            else:
                continue
            out.append(f)
            up = [r for r in es.relationships if r.child_entity.id == t.name]
            if up and rng.random() < 0.7:
                r = rng.choice(up)
                out.append(AggregationFeature(es[t.name][t.index], r.parent_entity, P.Count, where=f, relationship_path=RelationshipPath([(False, r)])))
    # two branches with features of the same name
    for p in w.tables:
        rels = [r for r in es.relationships if r.parent_entity.id == p]
        if len(rels) >= 2 and rels[0].child_entity.id != rels[1].child_entity.id:
            parts = []
            for r in rels[:2]:
                same = [c for c in ("v0", "v1", "v2") if c in w.tables[r.child_entity.id].kinds and w.tables[r.child_entity.id].kinds[c] in ("num", "int")]
                if same:
                    a = TransformFeature(es[r.child_entity.id][same[0]], primitive=P.Absolute)
                    parts.append(AggregationFeature(a, es[p], P.Sum, relationship_path=RelationshipPath([(False, r)])))
            if len(parts) == 2:
                out.append(parts[0] + parts[1])
    # through children of children and of children alike
    for r in es.relationships:
        for r2 in es.relationships:
            if r2.parent_entity.id == r.child_entity.id and rng.random() < 0.5:
                idx = r2.child_entity[r2.child_entity.index]
                c1 = AggregationFeature(idx, r.parent_entity, P.Count, relationship_path=RelationshipPath([(False, r), (False, r2)]))
                c2 = AggregationFeature(idx, r.child_entity, P.Count, relationship_path=RelationshipPath([(False, r2)]))
                out.append(c1 + AggregationFeature(c2, r.parent_entity, P.Max, relationship_path=RelationshipPath([(False, r)])))
    return out


def state(es, objs):
    return ([(e.id, [(v.id, v.name, v.description, type(v).__name__) for v in e.variables], len(e.df)) for e in es.entities], [(feat.canon(o), o.get_name()) for o in objs])


def case(rng, rec, tier):
    kw = {}
    odd = rng.random() < 0.6
    if odd:
        kw = dict(table_names=NAMES, decorate=decorate)
    w = gen.gen_world(rng, kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"), max_rows=5, n_tables=rng.choice([2, 3, 4]), **kw)
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True, es_id=rng.choice(["es", "a:b", None, "e<s>"]))
    for e in es.entities:
        for v in e.variables:
            if rng.random() < 0.15:
                v.description = rng.choice(["the thing called {}", "what {} is", "{braces} of {}", ""]) .replace("{}", v.id) or '""'
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3, 4]), multi_unit=True)
    build = ref.Builder(es, w)
    objs = [build(fg.top(rng.choice(list(w.tables)))) for _ in range(rng.randint(2, 5))]
    objs += more(rng, w, es, objs)
    before, all_objs = state(es, objs), objs
    d = tempfile.mkdtemp(prefix="ftv24")
    try:
        describe(rng, rec, es, objs, d)
        if not rec.violations:
            objs = rng.sample(objs, len(objs))
            objs.sort(key=lambda f: not same_names(f))
            for f in objs[:3]:
                graph(rng, rec, w, f, d)
            if rng.random() < 0.4:
                plot(rng, rec, es, d)
    finally:
        shutil.rmtree(d)
    rec.check(state(es, all_objs) == before, "changed", lambda: "describing, drawing or plotting changed something: %s" % w.describe())


def describe(rng, rec, es, objs, d):
    inner = {}
    for o in objs:
        for x in everything(o):
            inner[(x.entity.id, x.get_name())] = x
    pool = list(inner.values())
    mode = rng.random()
    custom, templates = [], []
    if mode < 0.75:
        for x in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 5]))):
            text = rng.choice(["the special one", "my {} thing", "whatever %s" % x.get_name(), "the \"quoted\""])
            custom.append((x if rng.random() < 0.5 else x.unique_name(), text))
        for e in es.entities:
            if rng.random() < 0.2:
                x = ft.IdentityFeature(e[e.index])
                if not any((k if isinstance(k, str) else k.unique_name()) == x.unique_name() for k, _ in custom):
                    custom.append((x.unique_name(), rng.choice(["the %s's id", "%s"]) % e.id))
        prims = {id(x.primitive): x for x in pool if feat.kind(x) in ("agg", "trans", "group")}
        for x in rng.sample(list(prims.values()), min(len(prims), rng.choice([0, 1, 2]))):
            p = x.primitive
            if any(k == p.name if isinstance(k, str) else k is p or k.name == p.name for k, _ in templates):
                continue
            nin = len(x.base_features) - (feat.kind(x) == "group")
            if any(y.primitive.name == p.name and len(y.base_features) - (feat.kind(y) == "group") != nin for y in pool if feat.kind(y) in ("agg", "trans", "group")):
                continue
            t = "the %s kind of " % rng.choice(["special", "50%"]) + " with ".join(["{}"] * nin)
            if x.number_output_features > 1:
                t = [t, t + " no {nth_slice}"] if rng.random() < 0.5 else [t] + ["part %d of " % i + t for i in range(x.number_output_features)]
                t = t if p.name != "n_most_common" or len(t) == 2 else t + ["more of {}"] * 3
            templates.append((p.name if rng.random() < 0.6 else p, t))
    kw = {}
    fd = {k: v for k, v in custom}
    pt = {k: v for k, v in templates}
    if rng.random() < 0.3:
        inside = {k: v for k, v in custom if isinstance(k, str) and rng.random() < 0.7}
        tin = {k: v for k, v in templates if isinstance(k, str) and rng.random() < 0.7}
        fd = {k: v for k, v in custom if not isinstance(k, str) or k not in inside}
        pt = {k: v for k, v in templates if not isinstance(k, str) or k not in tin}
        # what is given directly wins over the file
        for k in [k for k in fd if isinstance(k, str)]:
            inside[k] = "overridden"
        for k in [k for k in pt if isinstance(k, str)]:
            tin[k] = "overridden"
        path = os.path.join(d, "metadata.json")
        with open(path, "w") as fh:
            json.dump({k: v for k, v in (("feature_descriptions", inside), ("primitive_templates", tin)) if v or rng.random() < 0.5}, fh)
        kw["metadata_file"] = path
        rec.event("metadata")
    if fd or rng.random() < 0.3:
        kw["feature_descriptions"] = fd
    if pt or rng.random() < 0.3:
        kw["primitive_templates"] = pt
    ref_ = Describer(custom, templates)
    keep = (dict(fd), dict(pt))
    for o in (pool if len(pool) < 60 else rng.sample(pool, 60)):
        want = ref_(o)
        want = want[:1].upper() + want[1:] + "."
        info = lambda: "%s in %r, custom=%r templates=%r" % (o.get_name(), o.entity.id, [(k if isinstance(k, str) else k.get_name(), v) for k, v in custom], templates)  # noqa
        got = ft.describe_feature(o, **kw)
        rec.event("descriptions")
        ins = everything(o)
        kinds = sorted({feat.kind(x) for x in ins})
        if custom:
            rec.event("custom")
        if templates:
            rec.event("templates")
        for x in ins:
            k = feat.kind(x)
            if k == "agg" and x.where is not None:
                rec.event("where")
            if k == "agg" and x.use_previous:
                rec.event("use_previous")
            if k == "direct":
                rec.event("direct")
            if k == "group":
                rec.event("groupby")
            if k == "slice":
                rec.event("slices")
                b = feat.kind(x.base_feature)
                if b in ("direct", "group"):
                    rec.event(b + "_slices")
            if k == "trans" and x.primitive.name in VALUE:
                rec.event("values")
        rec.nontrivial((tuple(kinds), bool(custom), bool(templates), "metadata_file" in kw))
        rec.check(got == want, "description", lambda: "described as %r instead of %r: %s" % (got, want, info()))
        if rec.violations:
            return
    rec.check([dict(fd).keys() == keep[0].keys(), dict(pt).keys() == keep[1].keys()] == [True, True], "arguments", "describe_feature changed its arguments")


def drawn(rec, source, info):
    """what graphviz makes of it"""
    # orthogonal edges make some graphviz fail assertions of its own
    p = subprocess.run(["dot", "-Tjson0"], input=source.replace("splines=ortho", "splines=line").encode(), capture_output=True)
    err = p.stderr.decode()
    if p.returncode or "rror" in err or "unrecognized" in err:
        rec.violation("drawing", "graphviz answers %d %r: %s\n%s" % (p.returncode, err[:500], info(), source[:3000]))
        return None
    return json.loads(p.stdout.decode(), strict=False)


def plain(name):
    return name.replace(":", "--")


def rows_of(label):
    """[(port, text, highlighted)] of a table"""
    out = []
    for attrs, text in re.findall(r"<TD ([^>]*)>(.*?)</TD>", label, re.S):
        port = re.search(r'port="([^"]*)"', attrs)
        out.append((html.unescape(port.group(1)) if port else None, html.unescape(re.sub(r"</?B>", "", text)), "#D9EAD3" in attrs))
    return out


def graph(rng, rec, w, f, d):
    kw, caption = {}, None
    if rng.random() < 0.3:
        kw["description"] = True
        if rng.random() < 0.5:
            kw["feature_descriptions"] = {f.unique_name(): "my own words"} if rng.random() < 0.5 else {}
        caption = ft.describe_feature(f, **{k: v for k, v in kw.items() if k != "description"})
    elif rng.random() < 0.2:
        caption = kw["description"] = "a caption"
    info = lambda: "graph of %s in %r, world %s" % (f.get_name(), f.entity.id, w.describe())  # noqa
    save(rng, rec, d, lambda **x: ft.graph_feature(f, **kw, **x), info)
    g = ft.graph_feature(f, **kw)
    dot = drawn(rec, g.source, info)
    if dot is None:
        return
    rec.event("graphs")
    if caption is not None:
        rec.event("captions")
        if "\\" not in caption and "\n" not in caption:
            rec.check(dot.get("label") == caption, "caption", lambda: "%r instead of %r: %s" % (dot.get("label"), caption, info()))
    # what has to be there
    tables, lines = {}, []

    def note(entity, name):
        tables.setdefault(entity, set()).add(name)
        return (entity, name)
    seen = {}

    def visit(x):
        me = note(x.entity.id, x.get_name())
        key = (x.entity.id, x.get_name())
        if key in seen:
            return me
        seen[key] = True
        if feat.kind(x) == "slice":
            x = x.base_feature
        k = feat.kind(x)
        if k == "id":
            return me
        keys = set()
        for _, r in x.relationship_path:
            keys.add(note(r.child_entity.id, r.child_variable.name))
        if k == "agg":
            for _, r in x.relationship_path:
                note(r.child_entity.id, r.child_variable.name)
        bases = x.base_features[:-1] if k == "group" else list(x.base_features)
        if k == "agg" and x.where is not None:
            bases.append(x.where)
        ins = {visit(b) for b in bases}
        if k == "group":
            keys.add(visit(x.groupby))
        lines.append((me, "JOIN" if k == "direct" else x.primitive.name.upper(), ins, keys))
        return me
    visit(f)
    if any(":" in x.get_name() for x in everything(f)):
        rec.event("colons")
    if same_names(f):
        rec.event("same_names")
    # what is there
    objs = {o["_gvid"]: o for o in dot.get("objects", []) if "nodes" not in o}
    got_tables, ids = {}, {}
    for o in objs.values():
        if o.get("shape") == "plaintext":
            rows = rows_of(o["label"])
            title = rows[0][1]
            star = title.startswith("\u2605 ") and title.endswith(" (target)")
            e = title[2:-9] if star else title
            rec.check(star == (e == f.entity.id), "target", lambda: "title %r: %s" % (title, info()))
            texts, ports = set(), {}
            for port, text, lit in rows[1:]:
                t = text[:-8] if text.endswith(" (index)") and text[:-8] == (w.tables[e].index if e in w.tables else None) else text
                rec.check((t != text) == (e in w.tables and t == w.tables[e].index), "index-mark", lambda: "row %r: %s" % (text, info()))
                rec.check(lit == (e == f.entity.id and t == f.get_name()), "highlight", lambda: "row %r: %s" % (text, info()))
                rec.check(t not in texts, "twice", lambda: "row %r twice: %s" % (text, info()))
                texts.add(t)
                ports[port] = (e, t)
            got_tables[e], ids[o["_gvid"]] = texts, ports
    rec.check(got_tables == tables, "tables", lambda: "tables %r instead of %r: %s" % (got_tables, tables, info()))
    if rec.violations:
        return
    into, keys_into, out_of = {}, {}, {}
    for e in dot.get("edges", []):
        def end(side, port):
            i = e[side]
            if i in ids:
                name = e.get(port)
                return ids[i].get(name)
            return ("step", i)
        a, b = end("tail", "tailport"), end("head", "headport")
        rec.event("graph_edges")
        if a is None or b is None:
            rec.violation("edge", "edge %r leads nowhere: %s" % (e, info()))
            return
        if e.get("style") == "dotted":
            # keys: the step is the end which is no row
            step, row = (a, b) if a[0] == "step" and isinstance(a[1], int) else (b, a)
            keys_into.setdefault(step, set()).add(row)
        else:
            into.setdefault(b, set()).add(a)

    def is_step(x):
        return x[0] == "step" and isinstance(x[1], int)
    for me, prim, ins, keys in lines:
        steps = into.get(me, set())
        if len(steps) != 1 or not all(is_step(s) for s in steps):
            rec.violation("steps", "%r comes from %r: %s" % (me, steps, info()))
            return
        todo, got_ins, got_keys, labels = list(steps), set(), set(), []
        done = set()
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            o = objs[s[1]]
            if o.get("shape") == "diamond":
                labels.append(re.sub(r"<.*?>", "\n", o["label"]).strip("<>\n").split("\n")[-1])
            got_keys |= keys_into.get(s, set())
            for x in into.get(s, set()):
                if is_step(x):
                    todo.append(x)
                else:
                    got_ins.add(x)
        rec.check(labels == [prim], "primitive", lambda: "%r is made by %r instead of %r: %s" % (me, labels, prim, info()))
        rec.check(got_ins == ins, "inputs", lambda: "%r is drawn from %r instead of %r: %s" % (me, got_ins, ins, info()))
        rec.check(got_keys == keys, "keys", lambda: "%r is drawn by keys %r instead of %r: %s" % (me, got_keys, keys, info()))
    extra = set(x for x in into if not is_step(x)) - {m for m, _, _, _ in lines}
    rec.check(not extra, "extra", lambda: "drawn as calculated: %r: %s" % (extra, info()))


def save(rng, rec, d, call, info):
    if rng.random() > 0.25:
        return
    rec.event("files")
    sub = tempfile.mkdtemp(dir=d)
    ext = rng.choice(["svg", "png", "dot"])
    path = os.path.join(sub, rng.choice(["x", "x.y", "Ü x"]) + "." + ext)
    try:
        call(to_file=pathlib.Path(path) if rng.random() < 0.5 else path)
    except subprocess.CalledProcessError as e:
        if e.returncode < 0:          # graphviz itself died (its orthogonal edges do)
            return rec.event("graphviz_died")
        raise
    rec.check(os.listdir(sub) == [os.path.basename(path)], "file", lambda: "wrote %r instead of %r: %s" % (os.listdir(sub), path, info()))
    if rec.violations:
        return
    with open(path, "rb") as fh:
        head = fh.read(400)
    rec.check({"svg": b"<svg" in head or b"<?xml" in head, "png": head[:4] == b"\x89PNG", "dot": b"digraph" in head}[ext], "format", lambda: "%s holds %r" % (path, head[:50]))
    for bad in ("nowhere", os.path.join(sub, "z.no such format")):
        try:
            call(to_file=bad)
            rec.violation("bad-file", "saved to %r" % bad)
        except ValueError:
            pass


def unescape_record(s):
    return re.sub(r"\\(.)", r"\1", s)


def split_record(s, sep):
    """at separators which are not escaped"""
    out, cur, i = [], "", 0
    while i < len(s):
        if s.startswith(sep, i):
            out.append(cur)
            cur = ""
            i += len(sep)
        elif s[i] == "\\":
            cur += s[i:i + 2]
            i += 2
        else:
            cur += s[i]
            i += 1
    return out + [cur]


def plot(rng, rec, es, d):
    info = lambda: "plot of %r" % [(e.id, [v.id for v in e.variables]) for e in es.entities]  # noqa
    save(rng, rec, d, lambda **x: es.plot(**x), info)
    dot = drawn(rec, es.plot().source, info)
    if dot is None:
        return
    rec.event("plots")
    objs = {o["_gvid"]: o for o in dot.get("objects", [])}
    want = {}
    for e in es.entities:
        n = len(e.df)
        want["%s (%d row%s)" % (e.id, n, "s" if n > 1 else "")] = (e.id, ["%s : %s" % (v.id, v.type_string) for v in e.variables])
    got, by = {}, {}
    for i, o in objs.items():
        label = o["label"]
        parts = split_record(label[1:-1], "|")
        title = unescape_record(parts[0])
        lines = [unescape_record(x) for x in split_record(parts[1] if len(parts) == 2 else "?", "\\l")]
        rec.check(len(parts) == 2 and lines[-1] == "" and o.get("shape") == "record", "record", lambda: "%r: %s" % (label, info()))
        got[title] = lines[:-1]
        by[i] = want.get(title, (None,))[0]
    rec.check(got == {t: v for t, (_, v) in want.items()}, "entities", lambda: "%r instead of %r" % (got, want))
    edges = sorted((by[e["tail"]] or "", by[e["head"]] or "", e.get("xlabel")) for e in dot.get("edges", []))
    rels = sorted((r.child_entity.id, r.parent_entity.id, r.parent_variable.id if r.parent_variable.id == r.child_variable.id else "%s -> %s" % (r.parent_variable.id, r.child_variable.id))
                  for r in es.relationships)
    rec.check(edges == rels, "relationships", lambda: "%r instead of %r" % (edges, rels))
