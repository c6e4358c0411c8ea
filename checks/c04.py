"""C04: which process of which version comes out of a document."""

import copy
import json
import os
import re
from pathlib import Path
from urllib.parse import quote, urljoin

from hypothesis import strategies as st
from schema_salad.exceptions import ValidationException
from schema_salad.fetcher import DefaultFetcher

from lib.objects import dump
from lib.pbt import Prop, Violation

import cwl_utils.parser as cwl
from cwl_utils.errors import GraphTargetMissingException
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2

RULE = ("A case is a document with or without $graph (1-5 processes with similar ids in several spellings, namespaces, "
        "references to siblings), an entry point (Path, relative or absolute path, file or http URI, string, parsed YAML), a "
        "requested fragment and load_all; or a declared version; or a list of processes to save. Non-trivial when the "
        "$graph has at least two processes, the version is refused, or at least two processes are saved.")
ASSUMPTIONS = ["an unknown version is one that is not v1.0, v1.1 or v1.2",
               "http documents are served from the fetcher's memory cache, not a network"]

MODS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
IDS = ["main", "main2", "ma", "in", "tool", "tool/main", "tool2", "Main", "main.cwl", "a", "b-c", "main_", "sub/tool"]
NAMES = ["doc.cwl", "a+b.cwl", "with space.cwl", "é漢.cwl", "d/doc.json", "no_extension", "main"]
PATH_NAMES = NAMES + ["x#main.cwl", "a%20b.cwl", "50%.cwl"]
ENTRIES = ["path", "str", "rel str", "file uri", "http uri", "string", "yaml", "document str", "document yaml"]


@st.composite
def processes(draw, version, n, with_id=True):
    ids = draw(st.permutations(IDS))[:n]
    if draw(st.integers(0, 3)) and "main" not in ids:
        ids[draw(st.integers(0, n - 1))] = "main"
    out = []
    for i, name in enumerate(ids):
        cls = draw(st.sampled_from(["CommandLineTool", "Workflow", "ExpressionTool"] + (["Operation"] if version == "v1.2" else [])))
        p = {"class": cls, "inputs": draw(st.sampled_from([[], {"x": "File"}])), "outputs": [], "label": "L%d" % i}
        spell = draw(st.sampled_from(["plain", "#", "abs"]))
        p["id"] = {"plain": name, "#": "#" + name, "abs": "%URI%#" + name}[spell]
        if cls == "ExpressionTool":
            p["expression"] = "$({})"
        if cls == "Workflow":
            p["steps"] = {}
            if draw(st.booleans()):
                t = draw(st.sampled_from(ids + ["other.cwl", "sub/x.cwl#y"]))
                p["steps"]["s"] = {"in": {}, "out": [], "run": t if ".cwl" in t and t not in ids else "#" + t}
        if draw(st.integers(0, 3)) == 3:
            p["ex:note"] = i
        if draw(st.integers(0, 4)) == 4:
            p["cwlVersion"] = version
        out.append(p)
    return [ids, out]


@st.composite
def graphs(draw):
    version = draw(st.sampled_from(sorted(MODS)))
    entry = draw(st.sampled_from(ENTRIES))
    n = draw(st.integers(1, 5))
    ids, procs = draw(processes(version, n))
    frag = draw(st.sampled_from([None, None, "absent", "main"] + ids + ids))
    ns = draw(st.booleans()) or any("ex:note" in p for p in procs)
    name = draw(st.sampled_from(PATH_NAMES if entry == "path" else NAMES))
    return {"version": version, "entry": entry, "ids": ids, "procs": procs, "frag": frag, "all": draw(st.integers(0, 3)) == 3,
            "ns": ns, "schemas": draw(st.booleans()), "name": name, "graph": draw(st.integers(0, 5)) > 0}


def put(case):
    d = os.path.join(os.environ["TMPDIR"], "c04")
    f = Path(d, case["name"])
    f.parent.mkdir(parents=True, exist_ok=True)
    for o in ("other.cwl", "sub/x.cwl", "ont.ttl"):
        q = f.parent / o
        if not q.exists():
            q.parent.mkdir(parents=True, exist_ok=True)
            q.write_text("" if o == "ont.ttl" else "class: Operation\n")
    return f


def bind(x, uri):
    if isinstance(x, dict):
        return {k: bind(v, uri) for k, v in x.items()}
    if isinstance(x, list):
        return [bind(v, uri) for v in x]
    return x.replace("%URI%", uri) if isinstance(x, str) else x


def check_graph(case, ctx):
    f = put(case)
    http = case["entry"] == "http uri"
    uri = "http://example.com/dir/" + quote(case["name"]) if http else f.as_uri()
    procs = bind(case["procs"], uri)
    ids, version, frag = case["ids"], case["version"], case["frag"]
    if case["graph"]:
        doc = {"cwlVersion": version, "$graph": procs}
    else:
        doc = dict(procs[0], cwlVersion=version)
    if case["ns"]:
        doc["$namespaces"] = {"ex": "http://example.com/ns#"}
    if case["schemas"] and not http:
        doc["$schemas"] = ["ont.ttl"]
    text = json.dumps(doc)
    e = case["entry"]
    kw = {"load_all": case["all"]}
    keep = copy.deepcopy(doc)

    f.write_text(text)

    def go():
        if e in ("path", "str", "rel str", "file uri"):
            s = "#" + frag if frag is not None else ""
            if e == "path":
                return cwl.load_document_by_uri(Path(str(f) + s) if "/" not in s else Path(f.parent, f.name + s), **kw)
            if e == "str":
                return cwl.load_document_by_uri(str(f) + s, **kw)
            if e == "rel str":
                return cwl.load_document_by_uri(os.path.relpath(f) + s, **kw)
            return cwl.load_document_by_uri(uri + s, **kw)
        if http:
            served = {urljoin(uri, o): "x" for o in ("other.cwl", "sub/x.cwl")}
            lo = cwl_v1_2.LoadingOptions(fetcher=DefaultFetcher({uri: text, **served}, None))
            return cwl.load_document_by_uri(uri + ("#" + frag if frag is not None else ""), loadingOptions=lo, **kw)
        if e == "string":
            return cwl.load_document_by_string(text, uri, None, frag, case["all"])
        if e == "yaml":
            return cwl.load_document_by_yaml(doc, uri, None, frag, case["all"])
        if e == "document str":
            return cwl.load_document(text, uri, id_=frag, **kw)
        return cwl.load_document(doc, uri, id_=frag, **kw)

    if e == "path" and frag is not None and "/" in frag:
        # a Path cannot carry a fragment with a slash
        ctx.label("skipped")
        return
    if e == "path" and frag is not None and "#" in case["name"]:
        ctx.label("skipped")
        return
    want = frag if frag is not None else "main"
    ctx.label(e, "graph" if case["graph"] else "single", version)
    try:
        got = go()
    except GraphTargetMissingException as x:
        if not case["graph"] or case["all"] or want in ids:
            raise Violation("%s not found in %r: %s" % (want, ids, x)) from x
        missing = [i for i in ids if "#" + i not in re.split(r"[\s,]+", str(x))]
        if missing:
            raise Violation("the error does not name the processes %r: %s" % (missing, x)) from x
        ctx.label("target missing")
        if len(ids) > 1:
            ctx.nontrivial()
        return
    finally:
        if doc != keep:
            raise Violation("loading changed the caller's YAML: %r -> %r" % (keep, doc))
    if not case["graph"]:
        examine(got, 0, case, uri)
        return
    if case["all"]:
        if not isinstance(got, list) or len(got) != len(ids):
            raise Violation("load_all gives %r for %d processes" % (type(got), len(ids)))
        for i, o in enumerate(got):
            examine(o, i, case, uri)
    else:
        if want not in ids:
            raise Violation("there is no %s in %r but %r was loaded" % (want, ids, getattr(got, "id", got)))
        examine(got, ids.index(want), case, uri)
        ctx.label("fragment" if frag is not None else "main")
    if len(ids) > 1:
        ctx.nontrivial()


def examine(o, i, case, uri):
    p = case["procs"][i]
    mod = MODS[case["version"]]
    if type(o) is not getattr(mod, p["class"]):
        raise Violation("%s of %s is a %s.%s" % (p["class"], case["version"], type(o).__module__, type(o).__name__))
    for what, have, want in (
        ("id", o.id, uri + "#" + case["ids"][i]), ("label", o.label, p["label"]),
        ("cwlVersion", o.cwlVersion, case["version"]), ("inputs", [x.id for x in o.inputs], [uri + "#" + case["ids"][i] + "/x"] if p["inputs"] else []),
        ("extension fields", dict(o.extension_fields), {"http://example.com/ns#note": i} if "ex:note" in p else {}),
    ):
        if have != want:
            raise Violation("%s of process %d is %r, expected %r" % (what, i, have, want))
    if p["class"] == "Workflow":
        base = uri.rsplit("/", 1)[0]
        want = [uri + s["run"] if s["run"].startswith("#") else base + "/" + s["run"] for s in p["steps"].values()]
        have = [s.run for s in o.steps]
        if have != want:
            raise Violation("run of process %d is %r, expected %r" % (i, have, want))
    s = cwl.save(o)
    if case["ns"] and s.get("$namespaces") != {"ex": "http://example.com/ns#"}:
        raise Violation("the namespaces of the document are lost: %r" % s.get("$namespaces"))
    if case["schemas"] and not uri.startswith("http") and s.get("$schemas") != ["ont.ttl"]:
        raise Violation("the schemas of the document are lost: %r" % s.get("$schemas"))


VERS = st.one_of(st.sampled_from(["v1.0", "v1.1", "v1.2"]),
                 st.sampled_from(["v1.3", "v1.0.0", "v1", "1.0", "1.2", "draft-3", "cwl:draft-3", "v1.2.0-dev1", "v1.1.0-dev1", "V1.2", "", " v1.2",
                                  "v1.2 ", "v1.20", "sv1.0", None, 1.0, 1.2, 1, 2, True, [], ["v1.2"], {"a": 1}]),
                 st.tuples(st.sampled_from(["v1.0", "v1.1", "v1.2"]), st.sampled_from([".0", ".1", "-dev", ".0-dev4", "0", "\n", ".", "-", "x"])).map("".join),
                 st.text("v.0123456789-de", max_size=6))


@st.composite
def versions(draw):
    kind = draw(st.sampled_from(["tool", "graph"]))
    return {"kind": kind, "version": draw(VERS), "present": draw(st.integers(0, 5)) > 0, "inner": draw(st.sampled_from([None, "v1.0", "v1.2"])),
            "entry": draw(st.sampled_from(["string", "yaml"])), "all": draw(st.booleans())}


def check_version(case, ctx):
    f = put({"name": "doc.cwl"})
    uri = f.as_uri()
    tool = {"class": "CommandLineTool", "id": "main", "inputs": [], "outputs": []}
    if case["kind"] == "graph":
        if case["inner"] and not case["all"]:
            tool["cwlVersion"] = case["inner"]
        doc = {"$graph": [tool]}
    else:
        doc = tool
    if case["present"]:
        doc["cwlVersion"] = case["version"]
    v = case["version"] if case["present"] else None
    if cwl.cwl_version(doc) != v:
        raise Violation("cwl_version gives %r for %r" % (cwl.cwl_version(doc), v))
    try:
        if case["entry"] == "yaml":
            o = cwl.load_document_by_yaml(copy.deepcopy(doc), uri, load_all=case["all"])
        else:
            o = cwl.load_document_by_string(json.dumps(doc), uri, load_all=case["all"])
    except ValidationException as e:
        if isinstance(v, str) and v in MODS:
            raise Violation("version %s refused: %s" % (v, e)) from e
        ctx.label("refused")
        ctx.nontrivial()
        return
    if not (isinstance(v, str) and v in MODS):
        raise Violation("version %r was accepted" % (v,))
    if isinstance(o, list):
        (o,) = o
    if type(o) is not MODS[v].CommandLineTool or o.cwlVersion != v:
        raise Violation("version %r gives %s with cwlVersion %r" % (v, type(o), o.cwlVersion))
    ctx.label("accepted " + v)


def check_notmap(case, ctx):
    try:
        cwl.cwl_version(case)
    except ValidationException:
        ctx.nontrivial()
        return
    raise Violation("cwl_version accepts %r" % (case,))


@st.composite
def saves(draw):
    n = draw(st.integers(1, 5))
    out = []
    ids = draw(st.permutations(IDS))
    for i in range(n):
        version = draw(st.sampled_from(sorted(MODS)))
        _, (p,) = draw(processes(version, 1))
        p["id"] = ids[i]
        if draw(st.booleans()):
            p["ex%d:note" % i] = i
            p["$namespaces"] = {"ex%d" % i: "http://example.com/ns%d#" % i}
        p.pop("ex:note", None)
        if p["class"] == "Workflow":
            p["steps"] = {}
        p["cwlVersion"] = version
        out.append(p)
    return {"procs": out, "rel": draw(st.booleans()), "strip": draw(st.booleans())}


def check_save(case, ctx):
    f = put({"name": "doc.cwl"})
    uri = f.as_uri()
    objs = [cwl.load_document_by_yaml(copy.deepcopy(p), uri) for p in case["procs"]]
    if case["strip"]:
        for o in objs[1:]:
            o.cwlVersion = None
    before = [dump(o) for o in objs]
    got = cwl.save(objs, relative_uris=case["rel"])
    if [dump(o) for o in objs] != before:
        raise Violation("saving changes the objects")
    vs = [o.cwlVersion for o in objs if o.cwlVersion]
    if not isinstance(got, dict) or sorted(k for k in got if k != "$namespaces") != ["$graph", "cwlVersion"]:
        raise Violation("several processes are saved as %r" % (got,))
    if got["cwlVersion"] != max(vs):
        raise Violation("the graph of %r has version %s" % (vs, got["cwlVersion"]))
    ns = {}
    for p in case["procs"]:
        ns.update(p.get("$namespaces", {}))
    if got.get("$namespaces", {}) != ns:
        raise Violation("namespaces of the graph: %r, expected %r" % (got.get("$namespaces"), ns))
    if len(got["$graph"]) != len(objs):
        raise Violation("%d of %d processes saved" % (len(got["$graph"]), len(objs)))
    for o, s in zip(objs, got["$graph"]):
        single = cwl.save(o, relative_uris=case["rel"])
        single.pop("$namespaces", None)
        if single != s:
            raise Violation("in a graph a process is saved as %r, alone as %r" % (s, single))
    ctx.label("versions %d" % len(set(vs)))
    if len(objs) > 1:
        ctx.nontrivial()


PROPS = [
    Prop("graph", graphs(), check_graph, 5000, 100000),
    Prop("version", versions(), check_version, 1600, 20000),
    Prop("not a mapping", st.one_of(st.none(), st.integers(), st.text(max_size=5), st.lists(st.integers(), max_size=2), st.booleans()), check_notmap, 80, 300),
    Prop("save", saves(), check_save, 2000, 40000),
]
