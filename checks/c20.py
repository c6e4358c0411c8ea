"""C20: normalizing."""

import contextlib
import io
import json
import logging
import os
import shutil
from pathlib import Path

from hypothesis import strategies as st

from checks import c13, c19
from lib import cwlrun, packgen, refgen
from lib.pbt import Inconclusive, Prop, Violation

import cwl_utils.parser as cwlparser
from cwl_utils import normalizer

RULE = ("A case is a process tree split over files (documents), or a workflow with expressions and inputs for it (runs, graphs), with options; non-trivial when "
        "the document has several files, is not yet in CWL v1.2, or has expressions to be refactored.")
ASSUMPTIONS = ["the meaning of a document is what cwl_utils.parser loads from it, which C01 to C04 check", "cwltool without containers runs the original and the normalized document",
               "processes of one tree have the same cwlVersion, and $graph documents have no references to other files; values of File defaults are not relative references",
               "what the library cwl-upgrader adds to CWL v1.0 tools (network access, deep listings) is expected"]


def normalize(path, out, options):
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return normalizer.run(normalizer.parse_args(list(options) + [out, path]))
    finally:
        logging.disable(logging.NOTSET)


def single(out, name, before, src):
    """The one document that should be there."""
    if c13.tree(src) != before:
        raise Violation("the source files are changed")
    if os.listdir(out) != [name]:
        raise Violation("the files written are %s" % os.listdir(out))
    with open(os.path.join(out, name), encoding="utf-8") as f:
        text = f.read()
    try:
        doc = json.loads(text)
    except ValueError as e:
        raise Violation("the result is not JSON: %s" % e) from e
    if doc.get("cwlVersion") != "v1.2":
        raise Violation("the result has version %s" % doc.get("cwlVersion"))
    left = [x for x in c13.references(doc) if not (isinstance(x[1], str) and x[1].startswith("#"))]
    if left:
        raise Violation("left in the result: %s" % (left[:2],))
    return doc


def again(path, base, options, doc, what=""):
    """Normalizing the result changes nothing."""
    out = os.path.join(base, "again")
    os.makedirs(out)
    try:
        code = normalize(path, out, options)
    except Exception as e:
        raise Violation("normalizing the result fails: %s: %s" % (type(e).__name__, str(e)[:500])) from e
    if code:
        raise Violation("normalizing the result gives %s" % code)
    with open(os.path.join(out, os.path.basename(path)), encoding="utf-8") as f:
        doc2 = json.load(f)
    diff = c13.first_difference(doc, doc2)
    if diff:
        raise Violation("normalizing the result changes it: " + diff)


# ---- documents ---------------------------------------------------------------------------------------------
@st.composite
def documents(draw):
    m = draw(packgen.models())
    return {"model": m, "choices": draw(packgen.choice_lists()), "style": draw(st.sampled_from(["yaml", "json"])),
            "options": ["--no-expression-refactoring"]}


def upgraded(d, version):
    d = {k: v for k, v in d.items() if k != "cwlVersion"}
    if d["class"] == "Workflow":
        d["steps"] = [dict(s, run=upgraded(s["run"], version)) for s in d["steps"]]
    if version == "v1.0" and d["class"] == "CommandLineTool":
        d["requirements"] = list(d.get("requirements", [])) + [{"class": "NetworkAccess", "networkAccess": True}, {"class": "LoadListingRequirement", "loadListing": "deep_listing"}]
    return d


def check_documents(case, ctx):
    base = os.path.join(os.environ["TMPDIR"], "norm")
    shutil.rmtree(base, ignore_errors=True)
    src, out = os.path.join(base, "src"), os.path.join(base, "out")
    os.makedirs(src)
    os.makedirs(out)
    m = case["model"]
    sp = packgen.Split(m, case["choices"]).run()
    c13.write(sp, src, case["style"])
    before = c13.tree(src)
    root = os.path.join(src, sp.root)
    try:
        code = normalize(root, out, case["options"])
    except Exception as e:
        raise Violation("normalizing fails: %s: %s" % (type(e).__name__, str(e)[:800])) from e
    if code:
        raise Violation("normalizing gives %s" % code)
    doc = single(out, os.path.basename(root), before, src)
    Path(base, "doc.json").write_text(json.dumps(doc))
    uri = Path(base, "doc.json").as_uri()
    want = dict(upgraded(packgen.render(m), m["version"]), cwlVersion="v1.2")
    try:
        got = c13.meaning(doc, uri)
    except Exception as e:
        raise Violation("the result does not load: %s" % str(e)[:800]) from e
    want = c13.meaning(want, uri)
    diff = c13.first_difference(want, got)
    if diff:
        raise Violation("normalizing changed the process: " + diff)
    again(os.path.join(out, os.path.basename(root)), base, case["options"], doc)
    if len(sp.files) > 1 or m["version"] != "v1.2":
        ctx.nontrivial()
    ctx.label("version:" + m["version"], "files:%d" % min(len(sp.files), 6), *case["options"])


# ---- runs --------------------------------------------------------------------------------------------------
@st.composite
def runs(draw):
    case = draw(refgen.cases(max_features=2))
    if draw(st.integers(0, 2)) == 2:
        case["options"] = ["--no-expression-refactoring"]
    case["graph"] = case["entry"] == "wf.cwl" and draw(st.integers(0, 3)) == 3
    return case


def as_graph(case):
    """One file with all of the processes."""
    def ref(p):
        if isinstance(p, dict):
            p = dict(p)
            if p.get("class") == "Workflow":
                p["steps"] = {k: dict(s, run="#" + names[s["run"]] if isinstance(s["run"], str) else ref(s["run"])) for k, s in p["steps"].items()}
        return p
    names = {f: "main" if f == "wf.cwl" else f.split(".")[0] for f in case["files"]}
    return {"cwlVersion": case["version"], "$graph": [dict({k: v for k, v in ref(p).items() if k != "cwlVersion"}, id=names[f]) for f, p in case["files"].items()]}


def check_runs(case, ctx):
    if case["graph"]:
        case = dict(case, files={"wf.cwl": as_graph(case)})
    base, job = c19.write(case)
    try:
        check_runs_in(case, ctx, base, job)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check_runs_in(case, ctx, base, job):
    src, out = os.path.join(base, "src"), os.path.join(base, "out")
    path = os.path.join(src, case["entry"])
    before = c13.tree(src)
    for f in case["features"]:
        ctx.label(f)
    try:
        code = normalize(path, out, case["options"])
    except (Exception, SystemExit) as e:
        raise Violation("normalizing fails: %s: %s" % (type(e).__name__, str(e)[:800])) from e
    if code:
        raise Violation("normalizing gives %s" % code)
    doc = single(out, case["entry"], before, src)
    result = os.path.join(out, case["entry"])
    got, want = cwlparser.load_document_by_uri(result), cwlparser.load_document_by_uri(path)
    if c19.interface(got) != c19.interface(want):
        raise Violation("the interface is %s instead of %s" % (c19.interface(got), c19.interface(want)))
    if "--no-expression-refactoring" not in case["options"]:
        left = list(map(str, c19.expressions(doc, case["options"])))
        if left:
            raise Violation("expressions are left at %s" % left)
    again(result, base, case["options"], doc)
    if normalize(path, os.path.join(base, "again"), case["options"]):
        raise Violation("normalizing once more fails")
    with open(os.path.join(base, "again", case["entry"]), encoding="utf-8") as f:
        diff = c13.first_difference(doc, json.load(f))
    if diff:
        raise Violation("normalizing twice gives different documents: " + diff)
    r0 = cwlrun.run(path, job, base)
    if r0[0] != "ok":
        ctx.label("original fails")
        raise Inconclusive("original: " + r0[1][-600:])
    r1 = cwlrun.run(result, job, base)
    ctx.nontrivial()
    ctx.label("graph" if case["graph"] else "files:%d" % len(case["files"]), "version:" + case["version"], *case["options"])
    if r1[0] != "ok":
        raise Violation("the result does not run: " + r1[1][-700:])
    if r1[1] != r0[1]:
        raise Violation("the result gives %s instead of %s" % (json.dumps(r1[1])[:300], json.dumps(r0[1])[:300]))


PROPS = [Prop("documents", documents(), check_documents, quick=500, thorough=12000),
         Prop("runs", runs(), check_runs, quick=160, thorough=6000, setup=c19.setup)]
