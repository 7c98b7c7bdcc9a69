"""C29: the registries list exactly what there is, plugins are told of every dfs call, helpers do as documented."""
import contextlib
import gc
import inspect
import os
import random
import shutil
import sys
import tempfile
import time

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from featuretools.primitives import utils as pu
from featuretools.utils import Trie
from featuretools.utils.gen_utils import Library
from .. import gen, snap
from ..common import same, frame_diff

CASES = {"quick": 1600, "thorough": 30000}
RULE = ("histories of primitives and variable types coming and going compared with what the listings, dfs by name, and reading back know; random "
        "directories of primitive files; random tries against a dictionary; mock customers of random sizes; dfs called in random ways with recording "
        "plugins, also failing; distinct = (part, what was asked)")
NEED = {"registry": 50, "listed": 3000, "by_name": 100, "types": 40, "types_written": 15, "files": 40, "loaded_files": 60, "refused_files": 30, "tries": 40,
        "trie_steps": 800, "mock": 40, "plugin_calls": 150, "plugin_errors": 30, "positional": 30}


def case(rng, rec, tier):
    rng.choice([registry, registry, types, files, trie, mock, plugins, plugins])(rng, rec)


# ------------------------------------------------------------- primitives
KINDS = [vt.Numeric, vt.Discrete, vt.Boolean, vt.Datetime, vt.NaturalLanguage, vt.Variable, vt.Id, vt.Ordinal, vt.LatLong]


def new_primitive(rng, i):
    agg = rng.random() < 0.5
    base = P.AggregationPrimitive if agg else P.TransformPrimitive
    doc = rng.choice([None, "One line.", "First line of it.\n\n    Args:\n        x: more", ""])
    n = rng.randint(1, 3)
    if rng.random() < 0.3:
        ins = [[rng.choice(KINDS) for _ in range(n)] for _ in range(rng.randint(1, 3))]
    else:
        ins = [rng.choice(KINDS) for _ in range(n)]
    comp = [Library.PANDAS] + ([Library.DASK] if rng.random() < 0.4 else []) + ([Library.KOALAS] if rng.random() < 0.4 else [])
    name = "own_%s%d" % (rng.choice(["a", "B", "cum"]), i)
    d = {"name": name, "input_types": ins, "return_type": rng.choice(KINDS + [None]), "compatibility": comp,
         "get_function": lambda self: (lambda *a: a[0])}
    if doc is not None:
        d["__doc__"] = doc
    if rng.random() < 0.25:     # a refinement of a built-in one
        base = rng.choice([P.Max, P.Sum]) if agg else rng.choice([P.Absolute, P.Month])
    return type("Own%d" % i, (base,), d), agg


def expected_rows():
    rows = {}
    for attr in dir(ft.primitives):
        x = getattr(ft.primitives, attr)
        if not inspect.isclass(x) or not x.__dict__.get("name", getattr(x, "name", None)):
            continue
        for kind, base in (("aggregation", P.AggregationPrimitive), ("transform", P.TransformPrimitive)):
            if issubclass(x, base):
                rows[(x.name.lower(), kind)] = x
    return rows


def flat(ins):
    out = set()
    for i in ins:
        out |= flat(i) if isinstance(i, list) else {i.__name__}
    return out


def look(rec, where):
    df = ft.list_primitives()
    want = expected_rows()
    got = list(zip(df["name"], df["type"]))
    rec.check(sorted(got) == sorted(want), "listing", lambda: "%s: only listed %s, not listed %s" % (
        where, [g for g in got if g not in want] + [g for g in got if got.count(g) > 1], [k for k in want if k not in got]))
    for row in df.itertuples():
        rec.event("listed")
        cls = want.get((row.name, row.type))
        if cls is None:
            continue
        doc = (cls.__doc__ or "").split("\n")[0]
        ok = (row.dask_compatible == (Library.DASK in cls.compatibility) and row.koalas_compatible == (Library.KOALAS in cls.compatibility) and
              row.description == doc and sorted(row.valid_inputs.split(", ")) == sorted(flat(cls.input_types)) and
              row.return_type == getattr(cls.return_type, "__name__", None))
        rec.check(ok, "listed-wrong", lambda: "%s: %s" % (where, tuple(row)))
    a, t = P.get_aggregation_primitives(), P.get_transform_primitives()
    rec.check(set(a) == {n for n, k in want if k == "aggregation"} and set(t) == {n for n, k in want if k == "transform"} and
              all(a[n] is want[(n, "aggregation")] for n in a) and all(t[n] is want[(n, "transform")] for n in t),
              "registry", lambda: "%s: %s" % (where, sorted(set(a) ^ {n for n, k in want if k == "aggregation"})))


def registry(rng, rec):
    rec.event("registry")
    added = {}
    es = ft.EntitySet("es")
    es.entity_from_dataframe("p", pd.DataFrame({"id": [0, 1]}), index="id")
    es.entity_from_dataframe("c", pd.DataFrame({"id": range(3), "pid": [0, 0, 1], "v": [1.0, 2, 3]}), index="id")
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["pid"]))
    try:
        for step in range(rng.randint(2, 5)):
            if added and rng.random() < 0.35:
                n = rng.choice(sorted(added))
                delattr(ft.primitives, n)
                cls, agg = added.pop(n)
                opts = {"agg_primitives": [cls.name]} if agg else {"trans_primitives": [cls.name]}
                try:
                    ft.dfs(entityset=es, target_entity="p", features_only=True, **opts)
                    rec.violation("gone-name", "%r is not among the primitives any more, but dfs takes its name" % cls.name)
                except ValueError:
                    pass
                what = "removed"
            else:
                cls, agg = new_primitive(rng, step)
                attr = cls.__name__
                setattr(ft.primitives, attr, cls)
                added[attr] = (cls, agg)
                what = "added"
            rec.nontrivial(("registry", what, agg, str(cls.input_types), str(cls.__doc__)))
            look(rec, "after %s was %s" % (cls.name, what))
        for attr, (cls, agg) in added.items():
            if cls.__bases__[0] not in (P.AggregationPrimitive, P.TransformPrimitive) or cls.return_type is None or cls.return_type is vt.Variable:
                continue        # one that dfs would take, with an input there is
            cls.input_types, cls.return_type = [vt.Numeric], vt.Numeric
            spelled = rng.choice([cls.name, cls.name.upper(), cls.name.title()])
            opts = {"agg_primitives": [spelled], "trans_primitives": []} if agg else {"agg_primitives": [], "trans_primitives": [spelled]}
            fs = ft.dfs(entityset=es, target_entity="p" if agg else "c", features_only=True, **opts)
            rec.event("by_name")
            rec.check(any(type(f.primitive) is cls for f in fs), "name-unused", lambda: "dfs with %s made %s" % (spelled, fs))
    finally:
        for attr in added:
            delattr(ft.primitives, attr)
    look(rec, "after all")


# ------------------------------------------------------------- variable types
def all_types():
    out, todo = [], [vt.Variable]
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if not any(s is o for o in out):
                out.append(s)
                todo.append(s)
    return [c for c in out if c is not vt.variable.Text]


def types(rng, rec):
    rec.event("types")
    made = []
    bases = [vt.Categorical, vt.Numeric, vt.NaturalLanguage, vt.ZIPCode, vt.Id, vt.Variable, vt.Ordinal]
    tag = "%06d" % rng.randrange(10 ** 6)
    for k in range(rng.randint(1, 3)):
        base = rng.choice(bases + [m for m in made if rng.random() < 0.7])
        d = {"type_string": "own_type_%s_%d" % (tag, k)}
        if rng.random() < 0.6:
            d["__doc__"] = "Own type %d" % k
        made.append(type("OwnType%s_%d" % (tag, k), (base,), d))
    want = all_types()
    found = vt.find_variable_types()
    byname = {c.type_string: c for c in want}
    rec.check(set(found) == set(byname) and all(found[k] is byname[k] for k in found), "variable-types",
              lambda: "find_variable_types: %s" % sorted(set(found) ^ set(byname)))
    lst = vt.list_variable_types()
    got = sorted((r.name, r.type_string, str(r.description)) for r in lst.itertuples())
    exp = sorted((c.__name__, c.type_string, str(c.__doc__)) for c in byname.values())
    rec.check(got == exp, "variable-type-list", lambda: "%s" % [g for g in got if g not in exp][:3])
    rec.event("listed", len(got))
    for m in made:
        rec.nontrivial(("type", m.__name__, m.__bases__[0].__name__))
    if rng.random() < 0.3:
        g = vt.utils.graph_variable_types() if hasattr(vt, "utils") else vt.graph_variable_types()
        edges = sorted(tuple(x.strip().strip('"') for x in line.split("->")) for line in g.source.splitlines() if "->" in line)
        wanted = sorted((b.__name__, c.__name__) for c in byname.values() for b in c.__bases__)
        rec.check(edges == wanted, "type-graph", lambda: "%s" % [e for e in edges + wanted if (e in edges) != (e in wanted)][:5])
    # known wherever types are told by their strings
    use = [m for m in made if not issubclass(m, vt.Id)]
    if use:
        m = rng.choice(use)
        data = [1.5, 2.5, None] if issubclass(m, vt.Numeric) else ["a", "b", "a"]
        es = ft.EntitySet("es")
        es.entity_from_dataframe("e", pd.DataFrame({"id": range(3), "x": data}), index="id", variable_types={"x": m})
        rec.check(type(es["e"]["x"]) is m, "own-type-lost", lambda: "%s" % es["e"].variables)
        d = tempfile.mkdtemp(prefix="ftv29-")
        try:
            getattr(es, rng.choice(["to_csv", "to_pickle"]))(d + "/es")
            back = ft.read_entityset(d + "/es")
            rec.event("types_written")
            rec.check(type(back["e"]["x"]) is m, "own-type-lost", lambda: "read back as %s" % back["e"].variables)
        finally:
            shutil.rmtree(d)
    del made, use, want, found, byname
    gc.collect()


# ------------------------------------------------------------- primitive files
AGG = "from featuretools.primitives import AggregationPrimitive\nfrom featuretools.variable_types import Numeric\n"
TRANS = "from featuretools.primitives.base import TransformPrimitive\nfrom featuretools.variable_types import Numeric\n"


def body(rng, name, k):
    if rng.random() < 0.5:
        return AGG + "class %s(AggregationPrimitive):\n    name = 'f%d'\n    input_types = [Numeric]\n    return_type = Numeric\n    def get_function(self):\n        return lambda x: %d\n" % (name, k, k)
    if rng.random() < 0.5:
        return TRANS + "class %s(TransformPrimitive):\n    name = 'f%d'\n    input_types = [Numeric]\n    return_type = Numeric\n    def get_function(self):\n        return lambda x: %d\n" % (name, k, k)
    return ("from featuretools.primitives import make_agg_primitive\nfrom featuretools.variable_types import Numeric\n"
            "def f(x):\n    return %d\n%s = make_agg_primitive(f, [Numeric], Numeric, name='f%d')\n" % (k, name, k))


def files(rng, rec):
    rec.event("files")
    d = tempfile.mkdtemp(prefix="ftv29-")
    cwd = os.getcwd()
    try:
        want, good, bad = set(), {}, []
        for k in range(rng.randint(2, 7)):
            stem = rng.choice(["custom%d", "a.b%d", "_one%d", "zz %d", "Überall%d", "p%d"]) % k
            r = rng.random()
            path = os.path.join(d, stem + ".py")
            if r < 0.55:
                name = "Own%d" % k
                text = body(rng, name, k)
                s = rng.random()
                if s < 0.2:
                    text += body(rng, "Other%d" % k, k + 100)
                    bad.append(path)
                elif s < 0.35:
                    text = rng.choice(["", "x = 1\n", AGG, TRANS])
                    bad.append(path)
                else:
                    if rng.random() < 0.5:
                        text = "LIMIT = 3\nclass Helper:\n    pass\n" + text
                    good[path] = (name, k)
                open(path, "w", encoding="utf8").write(text)
                want.add(path)
            elif r < 0.7:       # not primitives
                open(os.path.join(d, rng.choice(["__init__.py", "__main__.py", ".hidden.py", "notes.txt", "data.pyc", "x.py.bak", "README", "."  "x"])), "w").write("x")
            else:
                os.mkdir(os.path.join(d, stem + rng.choice(["", ".py", ".d"])))
        if rng.random() < 0.3:
            os.chdir(d)
        where = "." if os.getcwd() == os.path.realpath(d) and rng.random() < 0.5 else d
        got = pu.list_primitive_files(where)
        rec.check(sorted(os.path.abspath(p) if where == "." else p for p in got) == sorted(os.path.realpath(p) if where == "." else p for p in want), "primitive-files",
                  lambda: "in %s listed %s, wanted %s" % (sorted(os.listdir(d)), sorted(got), sorted(want)))
        rec.nontrivial(("files", tuple(sorted(os.listdir(d)))))
        for p, (name, k) in good.items():
            n, cls = pu.load_primitive_from_file(p)
            rec.event("loaded_files")
            v = cls().get_function()(pd.Series([1.0]))
            rec.check(n == name and cls.name == "f%d" % k and v == k and issubclass(cls, P.base.PrimitiveBase), "primitive-loaded", lambda: "%s: %s %s %s" % (p, n, cls.name, v))
        for p in bad:
            rec.event("refused_files")
            try:
                pu.load_primitive_from_file(p)
                rec.violation("primitive-file-accepted", open(p).read())
            except RuntimeError as e:
                rec.check(p in str(e), "primitive-file-unnamed", lambda: str(e))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


# ------------------------------------------------------------- tries
def trie(rng, rec):
    rec.event("tries")
    default = rng.choice([lambda: None, list, lambda: 0, str])
    construct = rng.choice([list, tuple])
    t = Trie(default=default, path_constructor=construct)
    model = {(): default()}
    keys = [1, "a", ("x", 2), None, 2.5]

    def path():
        return tuple(rng.choice(keys) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))

    def touch(p):
        for k in range(len(p) + 1):
            if p[:k] not in model:
                model[p[:k]] = default()
    subs = [((), t)]
    for step in range(rng.randint(10, 40)):
        rec.event("trie_steps")
        at, sub = rng.choice(subs)
        p = path()
        q = list(p) if rng.random() < 0.5 else p
        r = rng.random()
        if r < 0.4:
            node = sub.get_node(q)
            touch(at + p)
            v = step
            node.value = v
            model[at + p] = v
        elif r < 0.7:
            node = sub.get_node(q)
            touch(at + p)
            rec.check(node.value == model[at + p], "trie-value", lambda: "%s: %r not %r" % (at + p, node.value, model[at + p]))
        elif r < 0.85:
            node = sub.get_node(q)
            touch(at + p)
            subs.append((at + p, node))
        else:
            got = {tuple(k): v for k, v in sub}
            want = {k[len(at):]: v for k, v in model.items() if k[:len(at)] == at}
            n = len(list(sub))
            rec.check(got == want and n == len(want) and all(type(k) is construct for k, _ in sub), "trie-items", lambda: "%s: %s wanted %s" % (at, got, want))
            kids = [k for k, _ in sub.children()]
            rec.check(len(kids) == len(set(kids)) and set(kids) == {k[0] for k in want if len(k) == 1}, "trie-children", lambda: "%s" % kids)
    rec.nontrivial(("trie", tuple(sorted(model, key=repr))))


# ------------------------------------------------------------- demo data
def mock(rng, rec):
    rec.event("mock")
    nc, npr, ns = rng.randint(1, 8), rng.randint(1, 6), rng.randint(1, 40)
    nt = rng.choice([1, 5, 60, 300])
    seed = rng.randrange(5)
    kw = dict(n_customers=nc, n_products=npr, n_sessions=ns, n_transactions=nt, random_seed=seed)
    rec.nontrivial(("mock", tuple(kw.values())))
    state = np.random.get_state()
    try:
        ask = ft.demo.load_mock_customer
        np.random.seed(rng.randrange(1000))
        frames = ask(**kw)
        np.random.seed(rng.randrange(1000))
        again = ask(**kw)
        table = ask(return_single_table=True, **kw)
        es = ask(return_entityset=True, **kw)
        other = ask(**dict(kw, random_seed=seed + 1))
    finally:
        np.random.set_state(state)
    what = str(kw)
    for k in frames:
        d = frame_diff(frames[k], again[k])
        rec.check(d is None, "mock-unrepeatable", lambda: "%s %s: %s" % (what, k, d))
    c, p, s, t = frames["customers"], frames["products"], frames["sessions"], frames["transactions"]
    rec.check(len(c) == nc and len(p) == npr and len(t) == nt and len(s) == t["session_id"].nunique() <= ns, "mock-sizes", lambda: "%s: %s" % (what, {k: len(v) for k, v in frames.items()}))
    rec.check(all(f[k].is_unique for f, k in ((c, "customer_id"), (p, "product_id"), (s, "session_id"), (t, "transaction_id"))), "mock-keys", lambda: what)
    rec.check(set(t["session_id"]) == set(s["session_id"]) and set(s["customer_id"]) <= set(c["customer_id"]) and set(t["product_id"]) <= set(p["product_id"]), "mock-links", lambda: what)
    first = t.groupby("session_id")["transaction_time"].min()
    rec.check(all(first[a] == b for a, b in zip(s["session_id"], s["session_start"])), "mock-starts", lambda: what)
    rec.check(nt < 5 or nc < 2 or not c.equals(other["customers"]), "mock-seed", lambda: "%s: another seed, the same customers" % what)
    rec.check(len(table) == nt and sorted(table["transaction_id"]) == sorted(t["transaction_id"]), "mock-table", lambda: "%s: %d rows" % (what, len(table)))
    for f, key in ((t, "transaction_id"), (s, "session_id"), (c, "customer_id"), (p, "product_id")):
        by = f.set_index(key)
        for col in by.columns:
            rec.check(col in table.columns and all(by.at[k, col] == v for k, v in zip(table[key], table[col])), "mock-table", lambda: "%s: column %s" % (what, col))
    for k, f in frames.items():
        e = es[k].df.reset_index(drop=True)
        key = es[k].index
        a = e.sort_values(key).reset_index(drop=True)[sorted(e.columns)].astype(str)
        b = f.sort_values(key).reset_index(drop=True)[sorted(f.columns)].astype(str)
        rec.check(a.equals(b), "mock-entityset", lambda: "%s: %s" % (what, k))
    rels = {(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships}
    rec.check(rels == {("products", "product_id", "transactions", "product_id"), ("sessions", "session_id", "transactions", "session_id"),
                       ("customers", "customer_id", "sessions", "customer_id")}, "mock-entityset", lambda: "%s" % rels)


# ------------------------------------------------------------- plugins
PLUGIN = """
LOG = None


class Plugin:
    def __init__(self, i):
        self.i = i

    def __call__(self):
        return self

    def on_call(self, kwargs):
        if LOG is not None:
            LOG.append(("call", self.i, dict(kwargs)))

    def on_return(self, return_value, runtime):
        if LOG is not None:
            LOG.append(("return", self.i, return_value, runtime))

    def on_error(self, error, runtime):
        if LOG is not None:
            LOG.append(("error", self.i, error, runtime))


one, two, three = Plugin(0), Plugin(1), Plugin(2)
"""
N = 3


def start(tier):
    """Install a package with plugins, as an installer would, in a scratch directory."""
    import atexit
    import importlib
    import pkg_resources
    d = tempfile.mkdtemp(prefix="ftv29-")
    atexit.register(shutil.rmtree, d, True)
    info = os.path.join(d, "ftv_plugins-1.0.dist-info")
    os.mkdir(info)
    open(os.path.join(info, "METADATA"), "w").write("Metadata-Version: 2.1\nName: ftv_plugins\nVersion: 1.0\n")
    open(os.path.join(info, "entry_points.txt"), "w").write(
        "[featuretools_dfs]\na = ftv_plugins:one\nb = ftv_plugins:two\nc = ftv_plugins:three\n[featuretools_other]\nz = ftv_plugins:missing\n")
    open(os.path.join(d, "ftv_plugins.py"), "w").write(PLUGIN)
    sys.path.append(d)
    pkg_resources.working_set.add_entry(d)
    importlib.invalidate_caches()
    return d


def stop(d):
    shutil.rmtree(d, True)


@contextlib.contextmanager
def recording(log):
    import ftv_plugins
    ftv_plugins.LOG = log
    try:
        yield
    finally:
        ftv_plugins.LOG = None


def plugins(rng, rec):
    w = gen.gen_world(rng, n_tables=2, max_rows=8)
    es = gen.build_es(w, lti=False)
    target = rng.choice(list(w.tables))
    names = list(inspect.signature(ft.dfs).parameters)
    opts = {"entityset": es, "target_entity": target, "agg_primitives": rng.sample(["sum", "count", "mode", "max"], 2), "trans_primitives": [],
            "features_only": rng.random() < 0.5, "max_depth": rng.choice([1, 2])}
    fail = rng.random() < 0.35
    if fail:
        what = rng.choice(["target", "primitive", "chunk", "depth"])
        if what == "target":
            opts["target_entity"] = "nowhere"
        elif what == "primitive":
            opts["agg_primitives"] = ["no such"]
        elif what == "chunk":
            opts.update(features_only=False, chunk_size=-1)
        else:
            opts["max_features"] = object()
    positional = []
    if rng.random() < 0.5:
        n = rng.randint(1, 6)
        for k in names[:n]:
            positional.append(opts.pop(k, inspect.signature(ft.dfs).parameters[k].default))
        rec.event("positional")
    log = []
    error = value = None
    start = time.time()
    with recording(log):
        try:
            value = ft.dfs(*positional, **opts)
        except Exception as e:
            error = e
    wall = time.time() - start
    rec.event("plugin_calls")
    rec.nontrivial(("plugin", tuple(sorted(opts)), len(positional), fail, target))
    told = dict(opts)
    told.update(zip(names, positional))
    n = N
    rec.check(sorted(x[:2] for x in log[:n]) == [("call", i) for i in range(n)], "plugin-calls", lambda: "%s" % [x[:2] for x in log])
    for x in log[:n]:
        rec.check(set(x[2]) == set(told) and all(x[2][k] is told[k] for k in told), "plugin-arguments", lambda: "told %s, called with %s" % (sorted(x[2]), sorted(told)))
    end = "return" if error is None else "error"
    if fail:
        rec.event("plugin_errors")
        rec.check(error is not None or what == "depth", "not-refused", lambda: what)
    elif error is not None:
        raise error
    rec.check(sorted(x[:2] for x in log[n:]) == [(end, i) for i in range(n)], "plugin-ends", lambda: "%s after an %s" % ([x[:2] for x in log], end))
    for x in log[n:]:
        rec.check(x[2] is (value if error is None else error), "plugin-result", lambda: "%r" % (x[2],))
        rec.check(0 <= x[3] <= wall + 0.01, "plugin-runtime", lambda: "%s of %s" % (x[3], wall))
    if error is None:
        alone = ft.dfs(*positional, **opts)
        a, b = (value, alone) if told["features_only"] else (value[1], alone[1])
        rec.check([snap.feature_state(f) for f in a] == [snap.feature_state(f) for f in b], "plugin-changes", lambda: "%s" % (a,))
        if not told["features_only"]:
            d = frame_diff(value[0], alone[0])
            rec.check(d is None, "plugin-changes", lambda: d)
