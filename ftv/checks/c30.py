"""C30: what is kept on S3, fetched from a URL or under an unusual path is what was written."""
import json
import os
import shutil
import tempfile
import urllib.parse
import urllib.request

import featuretools as ft
from .. import dfswork as D, gen, s3, snap
from . import c11, c13

CASES = {"quick": 350, "thorough": 6000}
RULE = ("EntitySets (hostile columns, pandas and Dask, csv, parquet and pickle with all options) and feature lists written to and read from a recording S3 "
        "server on loopback and URLs of it, with every kind of profile, over older ones, beside others, with faults of the server; and local paths which "
        "look like something else, also written again by Dask; monitors: cells, structure, requests with their signatures, objects, temporary files; "
        "distinct = what was written where")
NEED = {"s3_written": 120, "s3_read": 60, "url_read": 30, "features_s3": 25, "features_url": 8, "dask": 25, "signed": 100, "unsigned": 60, "faults": 20, "refused": 8, "alike": 15,
        "local": 30, "overwritten": 20, "again": 15, "cells": 8000, "requests": 500}

CREDENTIALS = "[default]\naws_access_key_id = AKDEFAULT\naws_secret_access_key = x\n[other]\naws_access_key_id = AKOTHER\naws_secret_access_key = y\n[my own]\naws_access_key_id = AKOWN\naws_secret_access_key = z\n"
KEYS = {None: "AKDEFAULT", False: None, "other": "AKOTHER", "my own": "AKOWN", "default": "AKDEFAULT"}


def start(tier):
    d = tempfile.mkdtemp(prefix="ftv-c30-")
    open(os.path.join(d, "credentials"), "w").write(CREDENTIALS)
    open(os.path.join(d, "none"), "w").write("")
    open(os.path.join(d, "config"), "w").write("[default]\nregion = us-east-1\n[profile other]\nregion = us-east-1\n[profile my own]\nregion = us-east-1\n")
    server, url = s3.start()
    for k in list(os.environ):
        if k.startswith("AWS_") or k.lower().endswith("_proxy"):
            del os.environ[k]
    os.environ.update(AWS_ENDPOINT_URL_S3=url, AWS_CONFIG_FILE=d + "/config", AWS_SHARED_CREDENTIALS_FILE=d + "/credentials", AWS_EC2_METADATA_DISABLED="true",
                      AWS_MAX_ATTEMPTS="1", AWS_DEFAULT_REGION="us-east-1", FTV_S3=url, FTV_S3_DIR=d, NO_PROXY="127.0.0.1")
    return server, d


def stop(ctx):
    ctx[0].shutdown()
    shutil.rmtree(ctx[1], True)


def ask(path, data=None):
    with urllib.request.urlopen(urllib.request.Request(os.environ["FTV_S3"] + path, data=data)) as r:
        return r.read()


class Place:
    """a bucket of its own, a scratch directory, temporary files in it"""

    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.dir = tempfile.mkdtemp(prefix="ftv-c30-")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        self.bucket = "b" + os.path.basename(self.dir)[8:].lower().replace("_", "-") + "%d" % os.getpid()
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        self.seen = 0

    def close(self):
        tempfile.tempdir = self.old
        os.environ["AWS_SHARED_CREDENTIALS_FILE"] = os.environ["FTV_S3_DIR"] + "/credentials"
        os.environ.pop("AWS_PROFILE", None)
        ask("/_forget/" + self.bucket)
        shutil.rmtree(self.dir)

    def profile(self):
        """(keyword arguments, access key the requests should be signed with)"""
        import boto3
        rng = self.rng
        boto3.DEFAULT_SESSION = None        # as in a new process
        os.environ["AWS_SHARED_CREDENTIALS_FILE"] = os.environ["FTV_S3_DIR"] + "/credentials"
        os.environ.pop("AWS_PROFILE", None)
        p = rng.choice([None, None, None, False, False, "other", "my own", "default"])
        kw = {} if p is None and rng.random() < 0.5 else {"profile_name": p}
        key = KEYS[p]
        if p is None or p is False:
            r = rng.random()
            if r < 0.3:
                os.environ["AWS_SHARED_CREDENTIALS_FILE"] = os.environ["FTV_S3_DIR"] + "/none"
                key = None
            elif r < 0.5:
                os.environ["AWS_PROFILE"] = "other"
                key = "AKOTHER" if p is None else None
        return kw, key

    def asked(self, what, who, keys):
        """what was asked of the server since the last time"""
        log = json.loads(ask("/_log/" + self.bucket))
        new, self.seen = log[self.seen:], len(log)
        self.rec.event("requests", len(new))
        self.rec.event("signed" if who else "unsigned")
        if who != "any":
            self.rec.check(all(r[2] == who for r in new), "signed-by", lambda: "%s: signed by %s, not %s" % (what, {r[2] for r in new}, who))
        self.rec.check(all(r[1] in keys for r in new), "other-key", lambda: "%s: asked for %s, not %s" % (what, new, keys))
        return new

    def clean(self, what):
        left = [x for x in os.listdir(self.tmp) if not x.endswith(".partd")]      # those are of dask
        self.rec.check(not left, "left-behind", lambda: "%s left %s in the temporary directory" % (what, left))


def some_es(rng, rec):
    """(EntitySet, format, its state)"""
    if rng.random() < 0.25:
        w = gen.gen_world(rng, kinds=("num", "int", "cat", "dt", "zip"), n_tables=2, nulls=rng.choice([0, 0.15]), idkind="int")
        es = gen.build_es(w, lti=rng.random() < 0.5, rng=rng, make_dask=True)
        rec.event("dask")
        fmt, tag = rng.choice(["csv", "parquet"]), "dask-"
    else:
        w = gen.gen_world(rng, kinds=("num", "int", "bool", "cat", "ord", "dt", "text", "zip", "latlong", "dob"), n_tables=rng.choice([1, 2, 3]), secondary=0.4)
        es = c13.build(rng, rec, w)
        fmt, tag = rng.choice(["csv", "csv", "parquet", "pickle"]), ""
    return es, fmt, tag, w


def write(rng, es, fmt, tag, path, **kw):
    if tag:
        if fmt == "csv":
            es.to_csv(path, sep=rng.choice([",", ";"]), **kw)
        else:
            es.to_parquet(path, **kw)
        return
    real = {n: getattr(es, n) for n in ("to_csv", "to_parquet", "to_pickle")}

    class With:
        pass
    proxy = With()
    for n, m in real.items():
        setattr(proxy, n, lambda p, _m=m, **k: _m(p, **dict(k, **kw)))
    c13.write(rng, proxy, fmt, path)


def compare(rec, es, before, got, fmt, tag, info):
    for k, v in before.items():
        if k.startswith("e:"):
            rec.event("cells", sum(len(x) for x in v["data"].values()))
    c13.compare(rec, before, c13.state(got, fmt), tag + fmt, info)


def case(rng, rec, tier):
    place = Place(rng, rec)
    try:
        rng.choice([entitysets, entitysets, entitysets, features, faults, faults, local, alike])(rng, rec, place)
    finally:
        place.close()


NAMES = ["es.tar", "dir/es-1.tar", "es", "es.tar.gz", "with space.tar", "ünï.tar", "a+b.tar", "es.tar.bz2", "a/b/c/d", "100%25.tar"]


def url(place, key):
    return "%s/%s/%s" % (os.environ["FTV_S3"], place.bucket, urllib.parse.quote(key))


def entitysets(rng, rec, place):
    keys = rng.sample(NAMES, rng.choice([1, 1, 2]))
    held = {}
    for key in keys + ([keys[0]] if rng.random() < 0.35 else []):
        es, fmt, tag, w = some_es(rng, rec)
        before, exact = c13.state(es, fmt), snap.es_state(es) if not tag else None
        path = "s3://%s/%s" % (place.bucket, key)
        kw, who = place.profile()
        if key in held:
            rec.event("overwritten")
        write(rng, es, fmt, tag, path, **kw)
        rec.event("s3_written")
        what = "%s %s to %s with %s" % (tag, fmt, path, kw)
        new = place.asked(what, who, {key})
        rec.check(any(r[0] == "PUT" for r in new), "not-written", lambda: what)
        place.clean(what)
        if exact is not None:
            diff = snap.diff_state(exact, snap.es_state(es))
            rec.check(diff is None, "writing-changed", lambda: "%s changed the EntitySet: %s" % (what, diff))
        held[key] = (es, fmt, tag, before, w)
        rec.nontrivial((key, str(kw), fmt, before))
    for key in rng.sample(sorted(held), len(held)):
        es, fmt, tag, before, w = held[key]
        info = lambda: "%s%s %s world=%s" % (tag, fmt, key, w.describe())  # noqa
        kw, who = place.profile()
        if rng.random() < 0.65:
            got = ft.read_entityset("s3://%s/%s" % (place.bucket, key), **kw)
            rec.event("s3_read")
        else:
            got = ft.read_entityset(url(place, key), **(kw if rng.random() < 0.3 else {}))
            who = None
            rec.event("url_read")
        new = place.asked("reading " + key, who, {key})
        rec.check(bool(new) and all(r[0] in ("GET", "HEAD") for r in new), "read-by", lambda: "%s" % new)
        place.clean("reading " + key)
        compare(rec, es, before, got, fmt, tag, info)
        rec.sample({"key": key, "format": tag + fmt, "requests": new})


def features(rng, rec, place):
    held = {}
    for key in rng.sample(["f.json", "features", "x y.json", "d/f.json.gz", "ü.json"], rng.choice([1, 2])):
        w = gen.gen_world(rng, kinds=D.KINDS, n_tables=rng.choice([1, 2, 3]))
        es, iv = D.load(rng, w, lti=False)
        fs = c11.make(rng, w, es, rng.choice(list(w.tables)))
        if not fs:
            continue
        before = [c11.full(f) for f in fs]
        kw, who = place.profile()
        if rng.random() < 0.3:      # over some older ones
            ft.save_features(fs[:1], "s3://%s/%s" % (place.bucket, key), **kw)
            rec.event("overwritten")
        ft.save_features(fs, "s3://%s/%s" % (place.bucket, key), **kw)
        place.asked("saving " + key, who, {key})
        rec.check([c11.full(f) for f in fs] == before, "saving-changed", lambda: key)
        held[key] = (fs, before, w)
        rec.nontrivial((key, str(kw), str([f.get_name() for f in fs])))
    for key, (fs, before, w) in held.items():
        kw, who = place.profile()
        if rng.random() < 0.7:
            got = ft.load_features("s3://%s/%s" % (place.bucket, key), **kw)
            rec.event("features_s3")
        else:
            got = ft.load_features(url(place, key))
            who = None
            rec.event("features_url")
        place.asked("loading " + key, who, {key})
        place.clean("features")
        info = lambda: "features=%s world=%s" % ([f.get_name() for f in fs][:12], w.describe())  # noqa
        c11.compare(rec, fs, got, before, info, "loaded")
        rec.check(c11.defs(ft.save_features(got)) == c11.defs(ft.save_features(fs)), "second-save", info)


def faults(rng, rec, place):
    """whatever goes wrong is told, and nothing is left behind"""
    es, fmt, tag, w = some_es(rng, rec)
    exact = c13.state(es, fmt)
    es1 = gen.build_es(gen.gen_world(rng, n_tables=1), lti=False)
    fs = ft.dfs(entityset=es1, target_entity=es1.entities[0].id, trans_primitives=[], features_only=True)
    path = "s3://%s/es.tar" % place.bucket
    kw, who = place.profile()
    what = rng.choice(["missing", "missing-url", "denied", "read-only", "half", "half-url", "profile", "to-url", "features-to-url", "not-an-archive", "half-features"])
    written = []

    def put(key, data):
        urllib.request.urlopen(urllib.request.Request(url(place, key), data=data, method="PUT")).close()
    if what.startswith("half"):
        if what == "half-features":
            ft.save_features(fs, "s3://%s/f.json" % place.bucket, **kw)
        else:
            write(rng, es, fmt, tag, path, **kw)
        ask("/_fault/%s/half" % place.bucket, b"")
    elif what in ("denied", "read-only"):
        ask("/_fault/%s/%s" % (place.bucket, what), b"")
    elif what == "not-an-archive":
        put("es.tar", b"this is no archive" * 100)
    ops = {"missing": lambda: ft.read_entityset(path, **kw), "missing-url": lambda: ft.read_entityset(url(place, "es.tar")),
           "denied": lambda: ft.read_entityset(path, **kw) if rng.random() < 0.5 else ft.load_features(path, **kw),
           "read-only": lambda: write(rng, es, fmt, tag, path, **kw) if rng.random() < 0.5 else ft.save_features(fs, path, **kw),
           "half": lambda: c13.state(ft.read_entityset(path, **kw), fmt), "half-url": lambda: c13.state(ft.read_entityset(url(place, "es.tar")), fmt),
           "profile": lambda: rng.choice([lambda: ft.read_entityset(path, profile_name="nobody"), lambda: es.to_pickle(path, profile_name="nobody") if not tag else es.to_csv(
               path, profile_name="nobody"), lambda: ft.save_features(fs, path, profile_name="nobody")])(),
           "to-url": lambda: write(rng, es, fmt, tag, url(place, "es.tar")), "features-to-url": lambda: ft.save_features(fs, url(place, "f.json")),
           "not-an-archive": lambda: ft.read_entityset(path, **kw), "half-features": lambda: ft.load_features("s3://%s/f.json" % place.bucket, **kw)}
    place.asked("before", "any", {"es.tar", "f.json"})
    rec.event("refused" if what in ("to-url", "features-to-url", "profile") else "faults")
    rec.nontrivial((what, str(kw), fmt, tag))
    try:
        ops[what]()
        rec.violation("silent:" + what, "no error for %s with %s (%s)" % (what, kw, tag + fmt))
    except Exception as e:
        rec.sample({"fault": what, "error": repr(e)[:150]})
    new = place.asked(what, "any", {"es.tar", "f.json"})
    if what in ("to-url", "features-to-url", "profile"):
        rec.check(not new, "asked-anyway", lambda: "%s: %s" % (what, new))
    place.clean(what)
    diff = snap.diff_state(exact, c13.state(es, fmt))
    rec.check(diff is None, "fault-changed", lambda: "%s changed the EntitySet: %s" % (what, diff))


def local(rng, rec, place):
    """paths here which look like something else"""
    cwd = os.getcwd()
    os.chdir(place.dir)
    try:
        name = rng.choice(["http", "https_data", "http.d/es", "httpx.tar", "es.tar", "s3", "s3_es", "a.tar/b", "es.json", "./http", "data", "http:", "es/", "-es", "~es", "%s"])
        if rng.random() < 0.3:
            name = os.path.join(place.dir, name)
        rec.event("local")
        base = [x for x in os.listdir(".")]
        times = rng.choice([1, 1, 2, 3])
        for k in range(times):
            if k == 0:
                es, fmt, tag, w = some_es(rng, rec)
            else:       # the same shape again, with other data and parts
                rec.event("again")
                w = gen.refill(rng, w)
                es = gen.build_es(w, lti=False, rng=rng, make_dask=bool(tag))
            if k == 0 and times > 1:
                w = gen.gen_world(rng, kinds=("num", "int", "cat", "dt", "zip"), n_tables=2, nulls=0, idkind="int")
                if rng.random() < 0.7:
                    fmt, tag = rng.choice(["csv", "parquet"]), "dask-"
                es = gen.build_es(w, lti=False, rng=rng, make_dask=bool(tag))
            if tag:
                for e in es.entities:
                    e.df = e.df.repartition(npartitions=rng.randint(1, 4))
            before = c13.state(es, fmt)
            write(rng, es, fmt, tag, name)
            info = lambda: "%s %s%s world=%s" % (name, tag, fmt, w.describe())  # noqa
            got = ft.read_entityset(name)
            compare(rec, es, before, got, fmt, tag, info)
            place.clean(name)
            rec.nontrivial((name, tag, fmt, before))
        new = [x for x in os.listdir(".") if x not in base]
        first = os.path.normpath(os.path.relpath(name, place.dir) if os.path.isabs(name) else name).split("/")[0]
        rec.check(new == [first], "written-elsewhere", lambda: "%s made %s" % (name, new))
        es1 = gen.build_es(gen.gen_world(rng, n_tables=1), lti=False)
        fs = ft.dfs(entityset=es1, target_entity=es1.entities[0].id, trans_primitives=["is_null"], features_only=True)
        fname = rng.choice(["http.json", "https", "s3", "f.tar", "http-features", "x"]) + "_f"
        ft.save_features(fs, fname)
        got = ft.load_features(fname)
        rec.check([snap.feature_state(f) for f in fs] == [snap.feature_state(f) for f in got], "features", lambda: fname)
    finally:
        os.chdir(cwd)


def alike(rng, rec, place):
    """entities whose names begin alike, alone or as partitions"""
    import dask.dataframe as dd
    import pandas as pd
    from featuretools import variable_types as vt
    rec.event("alike")
    names = rng.sample(["a", "a-b", "a-0", "a.csv", "a-0.csv", "a b", "A", "a-1", "data"], rng.randint(2, 4))
    make_dask = rng.random() < 0.7
    es = ft.EntitySet("es")
    for n in names:
        df = pd.DataFrame({"id": range(rng.randint(1, 9)), "v": n})
        if rng.random() < 0.3:
            df = df[["id"]]
        if make_dask:
            df = dd.from_pandas(df, npartitions=rng.randint(1, 3))
        es.entity_from_dataframe(n, df, index="id", variable_types={c: vt.Index if c == "id" else vt.Categorical for c in df.columns})
    fmt = rng.choice(["csv", "parquet"])
    tag = "dask-" if make_dask else ""
    before = c13.state(es, fmt)
    rec.nontrivial((tuple(names), fmt, tag))
    s3path = rng.random() < 0.4
    path = "s3://%s/alike.tar" % place.bucket if s3path else os.path.join(place.dir, "alike")
    kw = place.profile()[0] if s3path else {}
    write(rng, es, fmt, tag, path, **kw)
    got = ft.read_entityset(path, **kw)
    compare(rec, es, before, got, fmt, tag, lambda: "%s %s%s %s" % (names, tag, fmt, path))
