"""C01: load / save round trips keep the content."""

import copy
import json

from hypothesis import strategies as st

from lib import salad
from lib.canonical import canonical, diff
from lib.docgen import documents
from lib.objects import classes, deterministic_uuid, dump
from lib.pbt import Inconclusive, Prop, Violation
from lib.scratch import doc_uri

import cwl_utils.parser as cwl

RULE = ("A case is a schema-valid document (or a $graph of two or three) of v1.0, v1.1 or v1.2; non-trivial when it sets at "
        "least 6 distinct (class, field) pairs of the object model. For 'distinct', two documents differing in one value.")
ASSUMPTIONS = ["canonical content = schema-salad's own resolution of the same text (independent of cwl_utils), maps as lists, "
               "scoped references absolute, generated blank ids and map order ignored",
               "comments and source positions are not content"]


def load(doc, uri, **kw):
    deterministic_uuid()
    return cwl.load_document_by_yaml(copy.deepcopy(doc), uri, **kw)


def first_diff(a, b):
    return next(diff(a, b), None)


def check_save(obj, want, uri, version, rel, reload):
    saved = cwl.save(obj, relative_uris=rel)
    try:
        text = json.dumps(saved)
    except TypeError as e:
        raise Violation("save() gives an object that is not JSON: %s" % e) from e
    again = json.loads(text)
    have = canonical(again, uri, version)
    if isinstance(want, dict) and "id" not in want and have.get("id") == uri:
        del have["id"]
    d = first_diff(want, have)
    if d:
        raise Violation("content changed by load and save(relative_uris=%s): %s" % (rel, d))
    o2 = reload(again)
    d = first_diff(dump(obj), dump(o2))
    if d:
        raise Violation("loading the saved document (relative_uris=%s) gives another object: %s" % (rel, d))
    if not (obj == o2) or obj != o2:
        raise Violation("loading the saved document (relative_uris=%s) gives an object that is not ==" % rel)
    s2 = json.dumps(cwl.save(o2, relative_uris=rel))
    if s2 != text:
        raise Violation("saving again (relative_uris=%s) changes the text:\n%s\n%s" % (rel, text, s2))
    return again


def check_roundtrip(case, ctx):
    doc = case["doc"]
    uri = doc_uri()
    version = doc["cwlVersion"]
    want = canonical(doc, uri, version)
    obj = load(doc, uri)
    pairs = classes(obj, set())
    ctx.label(version, *("%s" % p for p in pairs))
    if len(pairs) >= 6:
        ctx.nontrivial()
    for rel in (True, False):
        again = check_save(obj, want, uri, version, rel, lambda d: load(d, uri))
        for k in ("$namespaces", "$schemas"):
            if doc.get(k) and (k == "$namespaces" and dict(again.get(k) or {}) != doc[k] or k == "$schemas" and len(again.get(k) or []) != len(doc[k])):
                raise Violation("%s lost: %r -> %r" % (k, doc[k], again.get(k)))
    order(doc, again, "")


def tail(v, key):
    return str(v.get(key)).rsplit("#", 1)[-1].rsplit("/", 1)[-1]


def order(a, b, path):
    """Explicit lists of the document keep their order."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k in b and ":" not in k and k not in ("default", "hints"):
                order(a[k], b[k], path + "/" + k)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for key in ("id", "name", "class", "package", "envName"):
            if all(isinstance(v, dict) and key in v for v in a + b):
                x, y = [tail(v, key) for v in a], [tail(v, key) for v in b]
                if x != y:
                    raise Violation("order of %s changed: %r -> %r" % (path, x, y))
                break
        for x, y in zip(a, b):
            order(x, y, path)


@st.composite
def single(draw):
    doc = draw(documents())
    if draw(st.integers(0, 19)) == 19:
        doc["$schemas"] = ["ont.ttl"]
    return {"doc": doc}


@st.composite
def graphs(draw):
    version = draw(st.sampled_from(salad.VERSIONS))
    n = draw(st.integers(1, 3))
    ids = draw(st.permutations(["main", "tool", "main2", "ma", "sub"]))[:n]
    procs = []
    ns = {}
    for i in ids:
        d = draw(documents(versions=[version]))
        ns.update(d.pop("$namespaces", {}))
        d.pop("cwlVersion")
        d["id"] = draw(st.sampled_from(["#", ""])) + i
        if d["class"] == "Workflow" and draw(st.booleans()):
            steps = d["steps"]
            for s in steps if isinstance(steps, list) else steps.values():
                if isinstance(s["run"], str):
                    s["run"] = "#" + draw(st.sampled_from(ids))
        procs.append(d)
    doc = {"cwlVersion": version, "$graph": procs}
    if ns:
        doc["$namespaces"] = dict(sorted(ns.items()))
    return {"doc": doc, "ids": ids}


def check_graph(case, ctx):
    doc = case["doc"]
    uri = doc_uri()
    version = doc["cwlVersion"]
    want = canonical(doc, uri, version)
    if not want["$graph"]:
        raise Inconclusive
    objs = load(doc, uri, load_all=True)
    if len(objs) != len(case["ids"]):
        raise Violation("%d processes loaded out of %d" % (len(objs), len(case["ids"])))
    ctx.label(version, "processes %d" % len(objs))
    if len(classes(objs, set())) >= 6:
        ctx.nontrivial()
    for rel in (True, False):
        saved = json.loads(json.dumps(cwl.save(objs, relative_uris=rel)))
        have = canonical(saved, uri, version)
        for p in have["$graph"].values():
            if p.pop("cwlVersion", version) != version:
                raise Violation("cwlVersion of a process changed")
            p.pop("$namespaces", None)
        d = first_diff(want, have)
        if d:
            raise Violation("content of a $graph changed by load and save(relative_uris=%s): %s" % (rel, d))
        deterministic_uuid()
        again = cwl.load_document_by_yaml(copy.deepcopy(saved), uri, load_all=True)
        d = first_diff([dump(o) for o in objs], [dump(o) for o in again])
        if d:
            raise Violation("loading the saved $graph (relative_uris=%s) gives other objects: %s" % (rel, d))
    # each process alone
    for o in objs:
        s = json.loads(json.dumps(cwl.save(o)))
        o2 = load(s, uri)
        d = first_diff(dump(o), dump(o2))
        if d:
            raise Violation("a process of a $graph saved alone loads differently: %s" % d)


def spots(x, path, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("class", "cwlVersion", "$namespaces", "type", "items") or ":" in k:
                if not isinstance(v, (dict, list)):
                    continue
            spots(v, path + [k], out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            spots(v, path + [i], out)
    else:
        out.append(path)
    return out


@st.composite
def pairs(draw):
    doc = draw(documents())
    sp = spots(doc, [], [])
    n = draw(st.integers(1, 4))
    muts = []
    for _ in range(n):
        if not sp:
            break
        muts.append([draw(st.sampled_from(sp)), draw(st.sampled_from(["change", "change", "drop"]))])
    return {"doc": doc, "muts": muts}


def mutate(doc, path, how):
    d = copy.deepcopy(doc)
    x = d
    for k in path[:-1]:
        x = x[k]
    v = x[path[-1]]
    if how == "drop":
        if isinstance(x, list):
            x.pop(path[-1])
        else:
            del x[path[-1]]
        return d
    if isinstance(v, bool):
        x[path[-1]] = not v
    elif isinstance(v, (int, float)):
        x[path[-1]] = v + 1 if abs(v) < 2**30 else v // 2
    elif isinstance(v, str):
        x[path[-1]] = "q" + v
    else:
        x[path[-1]] = "q"
    return d


def check_distinct(case, ctx):
    uri = doc_uri()
    obj = load(case["doc"], uri)
    same = load(case["doc"], uri)
    d = first_diff(dump(obj), dump(same))
    if d:
        raise Violation("loading the same document twice differs: %s" % d)
    if obj != same or not obj == same:
        raise Violation("loading the same document twice gives objects that are not ==")
    for path, how in case["muts"]:
        m = mutate(case["doc"], path, how)
        try:
            other = load(m, uri)
        except salad.SchemaSaladException:
            ctx.label("mutant rejected")
            continue
        d = first_diff(dump(obj, ext=False), dump(other, ext=False))
        if (d is None) != (obj == other) or (obj == other) == (obj != other):
            raise Violation("== disagrees with the content (%s at %r): %s" % (how, path, d))
        ctx.label("mutant " + ("equal" if d is None else "differs"))
        if d:
            ctx.nontrivial()


PROPS = [
    Prop("roundtrip", single(), check_roundtrip, 2400, 100000),
    Prop("graph", graphs(), check_graph, 500, 20000),
    Prop("distinct", pairs(), check_distinct, 600, 20000),
]
