"""C16: file formats and ontologies."""

import contextlib
import copy
import io
import os
import shutil
from pathlib import Path

from hypothesis import strategies as st
from rdflib import OWL, RDF, RDFS, BNode, Graph, Literal, URIRef
from schema_salad.exceptions import ValidationException

from lib.pbt import Prop, Violation

from cwl_utils import file_formats
import cwl_utils.parser as cwlparser

RULE = ("A case is an ontology with subclass and equivalence statements (and unrelated ones), files with formats and allowed formats; "
        "non-trivial when some file's format is decided by one or more steps in the ontology.")
ASSUMPTIONS = ["formats are named by URIs: class expressions (blank nodes) do not name a format, and are only generated where they lead nowhere",
               "chains of at most 200 steps", "null in place of a file is no file"]

BASE = ["http://edamontology.org/format_", "http://example.com/f#", "urn:fmt:", "http://example.com/f/"]
PREDS = ["sub", "sub", "sub", "eq", "eq", "type", "see", "disjoint"]
URIS = {"sub": RDFS.subClassOf, "eq": OWL.equivalentClass, "type": RDF.type, "see": RDFS.seeAlso, "disjoint": OWL.disjointWith}


@st.composite
def ontologies(draw):
    n = draw(st.integers(1, 8))
    shape = draw(st.sampled_from(["any", "any", "chain", "cycle", "tree", "long"]))
    edges = []
    if shape == "long":
        n = draw(st.sampled_from([50, 200]))
        p = draw(st.sampled_from(["sub", "eq", "req"]))
        edges = [[i, p, i + 1] for i in range(n - 1)]
    elif shape in ("chain", "cycle"):
        for i in range(n - (shape == "chain")):
            edges.append([i, draw(st.sampled_from(["sub", "sub", "eq", "req"])), (i + 1) % n])
    elif shape == "tree":
        for i in range(1, n):
            edges.append([i, "sub", draw(st.integers(0, i - 1))])
    k = draw(st.integers(0, 3 if shape != "any" else 14))
    for _ in range(k):
        edges.append([draw(st.integers(0, n - 1)), draw(st.sampled_from(PREDS + ["bnode", "label"])), draw(st.integers(0, n - 1))])
    return {"n": n, "edges": draw(st.permutations(edges)) if len(edges) < 30 else edges, "base": draw(st.sampled_from(BASE))}


@st.composite
def cases(draw):
    o = draw(ontologies())
    n = o["n"]
    fmt = st.integers(0, n) if n < 20 else st.sampled_from([0, 1, n // 2, n - 1, n])  # n: not in the ontology
    files = draw(st.lists(st.one_of(fmt, fmt, fmt, fmt, fmt, fmt, fmt, fmt, st.sampled_from(["none", "null"])), min_size=0, max_size=4))
    allowed = draw(st.lists(fmt, min_size=1, max_size=3))
    return {"onto": o, "files": files, "allowed": allowed, "one file": len(files) == 1 and draw(st.booleans()), "one format": len(allowed) == 1 and draw(st.booleans()),
            "graph": draw(st.sampled_from(["graph", "graph", "graph", "none", "empty"]))}


def uri(o, i):
    return o["base"] + "%03d" % i


def graph(o):
    g = Graph()
    for s, p, t in o["edges"]:
        s, t = URIRef(uri(o, s)), URIRef(uri(o, t))
        if p == "req":
            g.add((t, OWL.equivalentClass, s))
        elif p == "bnode":
            b = BNode()
            g.add((s, RDFS.subClassOf, b))
            g.add((b, RDF.type, OWL.Restriction))
        elif p == "label":
            g.add((s, RDFS.label, Literal("words")))
        else:
            g.add((s, URIS[p], t))
    return g


def reachable(o, start):
    """The formats that a file of this format has, with the number of steps."""
    up = {}
    for s, p, t in o["edges"]:
        if p in ("sub", "eq", "req"):
            up.setdefault(s, set()).add(t)
        if p in ("eq", "req"):
            up.setdefault(t, set()).add(s)
    seen, todo = {start: 0}, [start]
    while todo:
        x = todo.pop(0)
        for y in sorted(up.get(x, ())):
            if y not in seen:
                seen[y] = seen[x] + 1
                todo.append(y)
    return seen


def expected(case):
    """None, or the index of the first file that is refused; and the number of steps that decide."""
    steps = 0
    for k, f in enumerate(case["files"]):
        if f == "null":
            continue
        if f == "none":
            return k, steps
        r = reachable(case["onto"], f) if case["graph"] == "graph" else {f: 0}
        near = [r[a] for a in case["allowed"] if a in r]
        if not near:
            return k, max(steps, len(r) - 1)
        steps = max(steps, min(near))
    return None, steps


def file_object(o, k, f):
    if f == "null":
        return None
    x = {"class": "File", "location": "file:///data/%d-in.txt" % k, "basename": "%d-in.txt" % k}
    if f != "none":
        x["format"] = uri(o, f)
    return x


def verify(case, files, allowed, ontology, ctx):
    bad, steps = expected(case)
    before = copy.deepcopy((files, allowed)), None if ontology is None else set(ontology)
    try:
        file_formats.check_format(files, allowed, ontology)
        error = None
    except ValidationException as e:
        error = str(e)
    if ((files, allowed), None if ontology is None else set(ontology)) != before:
        raise Violation("the arguments are changed")
    if bad is None and error is not None:
        raise Violation("acceptable files are refused: %s" % error[:300])
    if bad is not None:
        if error is None:
            raise Violation("file %d is accepted" % bad)
        if "%d-in.txt" % bad not in error:
            raise Violation("the message does not name the file %d: %s" % (bad, error))
    if steps:
        ctx.nontrivial()
    ctx.label("steps:" + ("0" if not steps else "1" if steps == 1 else "2-5" if steps < 6 else "more"), "refused" if bad is not None else "accepted",
              "files:%d" % len(case["files"]))


def check(case, ctx):
    o = case["onto"]
    files = [file_object(o, k, f) for k, f in enumerate(case["files"])]
    allowed = [uri(o, a) for a in case["allowed"]]
    g = {"graph": graph(o) if case["graph"] == "graph" else None, "none": None, "empty": Graph()}[case["graph"]]
    verify(case, files[0] if case["one file"] else files, allowed[0] if case["one format"] else allowed, g, ctx)
    if g is not None:  # the relation itself
        for f in [x for x in case["files"] if isinstance(x, int)][:2]:
            r = reachable(o, f) if case["graph"] == "graph" else {f: 0}
            for a in case["allowed"]:
                got = file_formats.formatSubclassOf(uri(o, f), uri(o, a), g, set())
                if got != (a in r):
                    raise Violation("formatSubclassOf(%d, %d) is %s" % (f, a, got))


@st.composite
def documents(draw):
    case = draw(cases())
    case["graph"] = "graph"
    if case["onto"]["base"].startswith("urn:"):
        case["onto"]["base"] = BASE[0]  # relative to a CWL document
    case["serialization"] = draw(st.sampled_from(["turtle", "xml"]))
    case["two files"] = draw(st.booleans())
    case["prefix"] = draw(st.booleans())
    case["version"] = draw(st.sampled_from(["v1.0", "v1.1", "v1.2"]))
    case["one format"] = case["one format"] or (len(case["allowed"]) == 1 and draw(st.booleans()))
    return case


def check_document(case, ctx):
    """The formats and ontologies that a document declares."""
    base = os.path.join(os.environ["TMPDIR"], "formats")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    o = case["onto"]
    edges = o["edges"]
    k = len(edges) // 2 if case["two files"] else len(edges)
    names = []
    for j, part in enumerate([edges[:k], edges[k:]] if case["two files"] else [edges]):
        names.append("onto%d.%s" % (j, {"turtle": "ttl", "xml": "owl"}[case["serialization"]]))
        graph(dict(o, edges=part)).serialize(os.path.join(base, names[-1]), format=case["serialization"])
    allowed = [uri(o, a) for a in case["allowed"]]
    spelled = ["fmt:" + a[len(o["base"]):] for a in allowed] if case["prefix"] else allowed
    lines = ["cwlVersion: " + case["version"], "class: CommandLineTool", "baseCommand: cat", "outputs: []",
             "$namespaces: {fmt: '%s'}" % o["base"], "$schemas: [%s]" % ", ".join(names),
             "inputs:", "  in1:", "    type: File", "    format: %s" % (("'%s'" % spelled[0]) if case["one format"] else "[%s]" % ", ".join("'%s'" % s for s in spelled))]
    path = Path(base, "tool.cwl")
    path.write_text("\n".join(lines) + "\n")
    with contextlib.redirect_stderr(io.StringIO()):
        tool = cwlparser.load_document_by_uri(path)
    declared = tool.inputs[0].format
    if declared != (allowed[0] if case["one format"] else allowed):
        raise Violation("format: expected %s, got %s" % (allowed, declared))
    files = [file_object(o, k, f) for k, f in enumerate(case["files"])]
    verify(case, files, declared, tool.loadingOptions.graph, ctx)
    ctx.label("serialization:" + case["serialization"])


PROPS = [Prop("formats", cases(), check, quick=8000, thorough=300000), Prop("documents", documents(), check_document, quick=500, thorough=10000)]
