"""C14: splitting $graph documents."""

import io
import json
import os
import shutil
from pathlib import Path
from urllib.parse import unquote

from hypothesis import strategies as st
from cwlformat.formatter import stringify_dict
from ruamel.yaml import YAML

from lib import graphgen, objects, packgen
from lib.pbt import Inconclusive, Prop, Violation

from checks.c13 import first_difference, write

import cwl_utils.parser as cwlparser
from cwl_utils import graph_split

RULE = ("A case is a generated process tree, the list of choices that writes it as a $graph, and output options; non-trivial when the graph has "
        "at least two processes or a schema definition.")
ASSUMPTIONS = ["the meaning of the graph and of the files is what cwl_utils.parser loads from them, which C01 to C04 check",
               "the graph refers to nothing outside itself; ids of processes contain no '/', '?' or '%'",
               "what cwlformat does with the pretty option is taken as given"]


@st.composite
def cases(draw):
    return {"model": draw(packgen.models()), "choices": draw(packgen.choice_lists(80)), "style": draw(st.sampled_from(["yaml", "json", "aliases"])),
            "out": draw(st.sampled_from(["json", "yaml", "pretty"])), "mainfile": draw(st.sampled_from([None, "the main.cwl", "whole", "tool.cwl"])),
            "again": draw(st.booleans()), "namespaces": draw(st.booleans()), "entry": draw(st.sampled_from(["api", "run"]))}


@st.composite
def packed_cases(draw):
    return {"model": draw(packgen.models(3)), "choices": draw(packgen.choice_lists(60)), "out": draw(st.sampled_from(["json", "yaml", "pretty"])), "indent": draw(st.sampled_from([None, 4]))}


@st.composite
def collisions(draw):
    stems = draw(st.lists(st.sampled_from(["a", "b", "main", "whole", "tool"]), min_size=1, max_size=3))
    ids = []
    for x in stems:
        i = x + draw(st.sampled_from(["", ".cwl", "", "xcwl"]))
        if i not in ids:
            ids.append(i)
    return {"ids": ids, "mainfile": draw(st.sampled_from([None, "a", "b.cwl", "whole", "tool.cwl"])), "types": draw(st.sampled_from([None, "a.cwl", "t.yml", "tool.cwl"])),
            "out": draw(st.sampled_from(["json", "yaml"]))}


def stem(name):
    return name[:-4] if name.endswith(".cwl") else name


def yaml_text(obj):
    y = YAML(typ="safe", pure=True)
    y.width = 1000
    y.sort_base_mapping_type_on_output = False
    s = io.StringIO()
    y.dump(obj, s)
    return s.getvalue()


def canonical(x, where, top=True):
    """Everything addressed by (process or file, fragment)."""
    if isinstance(x, dict):
        if x.get("class_") == "SchemaDefRequirement":
            x = dict(x, types=sorted(x["types"], key=lambda t: t["name"].rsplit("/", 1)[-1].rsplit("#", 1)[-1]))
        return {k: canonical(v, where, False) for k, v in x.items() if not (top and k in ("id", "cwlVersion")) and not (str(v).startswith("_:") and k in ("id", "name"))
                and k != "extension_fields"}
    if isinstance(x, list):
        return [canonical(v, where, False) for v in x]
    if isinstance(x, str):
        return where(x)
    return x


def shared(x, seen):
    """The same structure in which equal parts are one object, which YAML writes as aliases."""
    if isinstance(x, dict):
        x = {k: shared(v, seen) for k, v in x.items()}
    elif isinstance(x, list):
        x = [shared(v, seen) for v in x]
    else:
        return x
    return seen.setdefault(json.dumps(x), x)


def split(graph, out, fmt, mainfile, entry):
    try:
        if entry == "run":
            args = [graph, "-f", "json" if fmt == "json" else "yaml", "-C", str(out)] + (["-m", mainfile] if mainfile else []) + (["-p"] if fmt == "pretty" else [])
            code = graph_split.run(args)
            if code:
                raise Violation("exit code %r" % code)
        else:
            with open(graph) as h:
                graph_split.graph_split(h, out, "json" if fmt == "json" else "yaml", mainfile, fmt == "pretty")
    except Violation:
        raise
    except Exception as e:
        raise Violation("splitting fails: %s: %s" % (type(e).__name__, e)) from e


def check_pretty(graph, out, mainfile, base):
    """The pretty files are what cwlformat makes of the plain ones, which are then compared instead."""
    plain = Path(base, "plain")
    split(graph, plain, "yaml", mainfile, "api")
    if sorted(os.listdir(out)) != sorted(os.listdir(plain)):
        raise Violation("pretty output has files %s instead of %s" % (os.listdir(out), os.listdir(plain)))
    for f in os.listdir(plain):
        a = YAML(typ="safe", pure=True).load((plain / f).read_text())
        try:
            want = a if isinstance(a, list) else YAML(typ="safe", pure=True).load(stringify_dict(a))
        except Exception as e:
            raise Inconclusive("cwlformat fails") from e
        try:
            got = YAML(typ="safe", pure=True).load((out / f).read_text())
        except Exception as e:
            raise Violation("pretty %s is not YAML: %s" % (f, e)) from e
        if got != want:
            raise Violation("pretty %s differs from the plain one" % f)
    return plain


def references(resolved, ids, external):
    """What each process of a graph in the file `resolved` means."""
    want = {}
    pre = resolved.as_uri() + "#"

    def where(s):
        if s.startswith(pre):
            d, sep, rest = s[len(pre):].partition("/")
            if d in ids or d + "/" + rest.split("/")[0].rstrip("[]?") in external:
                return "@%s#%s" % (d, rest)
            return "@%s#%s" % (i, d + sep + rest)  # of a part that came from another file
        return s
    for i in ids:
        objects.deterministic_uuid()
        try:
            p = cwlparser.load_document_by_uri(str(resolved) + "#" + i)
        except Exception as e:
            raise Violation("generator error: %s\n%s" % (e, resolved.read_text()[:3000])) from e
        want[i] = canonical(objects.dump(p), where)
    return want


def compare(want, files, out, version, external):
    there = set(os.listdir(out))
    missing = set(files.values()) - there
    if missing:
        raise Violation("no file for %s, only %s" % (missing, there))
    extra = there - set(files.values()) - {t.split('/')[0] for t in external}
    if extra:
        raise Violation("unexpected files %s" % extra)
    uris = {unquote((out / f).as_uri()): i for i, f in files.items()}

    def where(s):
        if s.startswith(out.as_uri() + "/"):
            f, _, rest = s.partition("#")
            return "@%s#%s" % (uris.get(unquote(f), unquote(f.rsplit("/", 1)[1])), rest)
        return s
    for i, f in files.items():
        objects.deterministic_uuid()
        try:
            p = cwlparser.load_document_by_uri(out / f)
        except Exception as e:
            raise Violation("%s does not load: %s\n%s" % (f, e, open(out / f).read()[:1500])) from e
        if p.cwlVersion != version:
            raise Violation("%s has cwlVersion %s" % (f, p.cwlVersion))
        diff = first_difference(want[i], canonical(objects.dump(p), where))
        if diff:
            raise Violation("process %r changed: %s" % (i, diff))


def scratch():
    base = os.path.join(os.environ["TMPDIR"], "split")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    return base


def check(case, ctx):
    base = scratch()
    m = case["model"]
    g = graphgen.Graph(m, case["choices"]).run()
    out = Path(base, "out")
    files = {i: stem(i) + ".cwl" for i in g.ids}
    mainfile = case["mainfile"]
    if "main" in files:
        if mainfile and stem(mainfile) in [stem(i) for i in g.ids]:
            mainfile = "the main.cwl"
        files["main"] = stem(mainfile or "unpacked_graph.cwl") + ".cwl"
    doc = g.doc
    if case["namespaces"]:
        ns = {"ex": packgen.NS}
        doc = json.loads(json.dumps(g.doc).replace('"%sfmt"' % packgen.NS, '"ex:fmt"'))
        doc = {"$namespaces": ns, **doc}
        g.resolved["$namespaces"] = ns
        schemas = [Path(base, "an ontology.owl").as_uri()]
        Path(base, "an ontology.owl").write_text("<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'/>")
        doc["$schemas"] = g.resolved["$schemas"] = schemas
    graph = os.path.join(base, "graph.cwl")
    if case["style"] == "aliases":
        doc = shared(doc, {})
    with open(graph, "w") as f:
        f.write(json.dumps(doc) if case["style"] == "json" else yaml_text(doc).replace("'2020-01-01'", "2020-01-01"))
    source = open(graph, "rb").read()
    resolved = Path(base, "resolved.cwl")
    with open(resolved, "w") as f:
        json.dump(g.resolved, f)
    external = set(g.seen_types)
    want = references(resolved, g.ids, external)
    for _ in range(2 if case["again"] else 1):
        split(graph, out, case["out"], mainfile, case["entry"])
    if open(graph, "rb").read() != source:
        raise Violation("splitting changed the graph")
    if case["out"] == "json":
        for f in files.values():
            try:
                json.load(open(out / f))
            except ValueError as e:
                raise Violation("%s is not JSON" % f) from e
    if case["out"] == "pretty":
        out = check_pretty(graph, out, mainfile, base)
    compare(want, files, out, m["version"], external)
    if case["namespaces"]:
        for f in files.values():
            got = YAML(typ="safe", pure=True).load((out / f).read_text())
            if got.get("$schemas") != schemas or got.get("$namespaces") != ns:
                raise Violation("%s has $schemas %r and $namespaces %r" % (f, got.get("$schemas"), got.get("$namespaces")))
    if len(g.ids) > 1 or "schema definitions" in g.labels:
        ctx.nontrivial()
    ctx.label("version:" + m["version"], "processes:%d" % len(g.ids), "output:" + case["out"], "input:" + case["style"], *sorted(g.labels))


def inline_imports(doc):
    """What cwltool --pack replaced by {"$import": "#types.yml/T"}."""
    named = {}

    def collect(x):
        if isinstance(x, dict):
            for k in ("name", "id"):
                if isinstance(x.get(k), str):
                    named.setdefault(x[k], x)
            for v in x.values():
                collect(v)
        elif isinstance(x, list):
            for v in x:
                collect(v)

    def put(x):
        if isinstance(x, dict):
            if set(x) == {"$import"}:
                return put(named[x["$import"]])
            return {k: put(v) for k, v in x.items()}
        if isinstance(x, list):
            return [put(v) for v in x]
        return x
    collect(doc)
    return put(doc)


def type_names(x, defined, used):
    if isinstance(x, dict):
        if isinstance(x.get("name"), str):
            defined.add(x["name"])
        for k, v in x.items():
            if k in ("type", "items"):
                used.update(t for t in (v if isinstance(v, list) else [v]) if isinstance(t, str) and t.startswith("#"))
            type_names(v, defined, used)
    elif isinstance(x, list):
        for v in x:
            type_names(v, defined, used)


def misplaced_imports(x):
    """Anything but types that cwltool replaced by {"$import": ...}, as it does when ids coincide."""
    if isinstance(x, list):
        return any(misplaced_imports(v) for v in x)
    if not isinstance(x, dict):
        return False
    if x.get("class") == "SchemaDefRequirement":
        return False
    return "$import" in x or misplaced_imports(list(x.values()))


def foreign(doc, i):
    """Whether a process other than `i` uses types of the file `i`."""
    return any(p["id"] != "#" + i and any(t.split("/")[0] == i for t in type_files(p)) for p in doc["$graph"])


def type_files(x):
    """Where the types of requirements come from."""
    if isinstance(x, list):
        return set().union(*[type_files(v) for v in x])
    if not isinstance(x, dict):
        return set()
    if x.get("class") == "SchemaDefRequirement":
        return {(t.get("name") or t.get("$import"))[1:] for t in x["types"]}
    return type_files(list(x.values()))


CWLTOOL_NOT = ["import of all parameters", "import of all requirements", "import of requirements", "import of all hints", "import of a requirement", "import of a type",
               "import of a parameter", "import of a step", "import of a value", "import of a process", "type shortcuts"]  # which cwltool mistakes


def without_ids(x):
    """Values of defaults, in which cwltool takes `id` and `source` for its own, replaced."""
    if isinstance(x, dict):
        return {k: "words" if k == "default" and isinstance(v, (dict, list)) else without_ids(v) for k, v in x.items()}
    return [without_ids(v) for v in x] if isinstance(x, list) else x


def check_cwltool(case, ctx):
    """The same with graphs made by cwltool --pack."""
    from cwltool.context import LoadingContext
    from cwltool.load_tool import fetch_document, resolve_and_validate_document
    from cwltool.pack import pack
    base = scratch()
    sp = packgen.Split(without_ids(case["model"]), case["choices"], features=CWLTOOL_NOT).run()
    write(sp, base, "yaml")
    try:
        lc, obj, uri = fetch_document(os.path.join(base, sp.root))
        lc.fast_parser = False
        lc, uri = resolve_and_validate_document(lc, obj, uri, preprocess_only=True)
        doc = json.loads(json.dumps(pack(lc, uri)))
    except Exception as e:
        raise Inconclusive("cwltool does not pack this: %s" % str(e)[-90:]) from e
    if len(doc["$graph"]) == 1:
        doc = {"cwlVersion": doc["cwlVersion"], "$graph": doc["$graph"]}
        doc["$graph"][0].pop("cwlVersion", None)
    graph = os.path.join(base, "graph.cwl")
    with open(graph, "w") as f:
        json.dump(doc, f, indent=case["indent"])
    resolved = Path(base, "resolved.cwl")
    try:
        inlined = inline_imports(doc)
    except KeyError as e:
        raise Inconclusive("cwltool's document is wrong") from e
    with open(resolved, "w") as f:
        json.dump(inlined, f)
    ids = [p["id"][1:] for p in doc["$graph"]]
    defined, used = set(), set()
    type_names(doc["$graph"], defined, used)
    if not used <= defined or misplaced_imports(doc["$graph"]):
        raise Inconclusive("cwltool's document is wrong")
    external = type_files(doc)
    try:
        want = references(resolved, ids, external)
    except Violation as e:
        raise Inconclusive("cwltool's document does not load: %s" % str(e)[-90:]) from e
    out = Path(base, "out")
    files = {i: stem(i) + ".cwl" for i in ids}
    files["main"] = "unpacked_graph.cwl"
    if any(t.split("/")[0] in files.values() and foreign(doc, t.split("/")[0]) for t in external):
        raise Inconclusive("types of a file that is a process too")
    split(graph, out, case["out"], None, "api")
    if case["out"] == "pretty":
        out = check_pretty(graph, out, None, base)
    compare(want, files, out, case["model"]["version"], external)
    if len(ids) > 1:
        ctx.nontrivial()
    ctx.label("processes:%d" % min(len(ids), 6), *sorted(sp.labels))


def check_collisions(case, ctx):
    """Ids whose files would be the same: nothing may be lost without an error."""
    base = scratch()
    entries = []
    for i in case["ids"]:
        e = {"id": i, "class": "CommandLineTool", "doc": "I am " + i, "inputs": [], "outputs": [], "baseCommand": "x"}
        if case["types"]:
            e["requirements"] = [{"class": "SchemaDefRequirement", "types": [{"type": "enum", "name": "#%s/T" % case["types"], "symbols": ["#%s/T/x" % case["types"]]}]}]
        entries.append(e)
    graph = os.path.join(base, "graph.json")
    with open(graph, "w") as f:
        json.dump({"cwlVersion": "v1.2", "$graph": entries}, f)
    out = Path(base, "out")
    names = [stem((case["mainfile"] or "unpacked_graph.json") if i == "main" else i) + ".cwl" for i in case["ids"]]
    external = case["types"] and any(i != case["types"] for i in case["ids"])
    clash = len(set(names + ([case["types"]] if external else []))) < len(names) + bool(external)
    ctx.label("clash" if clash else "no clash")
    try:
        with open(graph) as h:
            graph_split.graph_split(h, out, case["out"], case["mainfile"], False)
    except Exception as e:
        if clash:
            ctx.nontrivial()
            return
        raise Violation("splitting fails: %s: %s" % (type(e).__name__, e)) from e
    texts = [(out / f).read_text() for f in os.listdir(out)]
    for i in case["ids"]:
        if not any("I am %s" % i in t and t.count("I am") == 1 and ("I am %s\"" % i in t or "I am %s\n" % i in t or "I am %s'" % i in t) for t in texts):
            raise Violation("process %s was lost: %s" % (i, os.listdir(out)))
    if external and not any("\"T\"" in t or "name: T" in t for t in texts):
        raise Violation("the types were lost")
    ctx.nontrivial()


PROPS = [Prop("split", cases(), check, quick=2000, thorough=50000), Prop("cwltool", packed_cases(), check_cwltool, quick=600, thorough=15000),
         Prop("collisions", collisions(), check_collisions, quick=300, thorough=3000)]
