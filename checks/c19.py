"""C19: refactored workflows give what the originals give."""

import contextlib
import io
import itertools
import json
import logging
import os
import re
import shutil

from lib import cwlrun, refgen
from lib.pbt import Inconclusive, Prop, Violation

from cwl_utils import expression_refactor
from cwl_utils.parser import load_document_by_uri

RULE = "A case is a workflow or tool with the expressions of some features, inputs for it, and options; non-trivial when it is refactored, and both run."
ASSUMPTIONS = ["cwltool without containers runs the original and the refactored document", "the command nodejs is there", "expressions are deterministic and use inputs and self"]

COUNT = itertools.count()


def write(case):
    base = os.path.join(os.environ["TMPDIR"], "refactor%d" % next(COUNT))
    for d in ("src", "out"):
        os.makedirs(os.path.join(base, d))
    for n, d in case["files"].items():
        with open(os.path.join(base, "src", n), "w") as f:
            json.dump(d, f, indent=1)
    job = dict(case["job"])
    if "f" in job:
        p = os.path.join(base, "data.txt")
        with open(p, "w") as f:
            f.write(job["f"])
        job["f"] = {"class": "File", "location": "file://" + p}
    return base, job


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.join(r, f)] = h.read()
    return out


REF = re.compile(r"""\$\(\s*(?:null\b|(?:inputs|self|runtime)\b)(?:\.\w+|\['(?:[^'\\]|\\.)*'\]|\["(?:[^"\\]|\\.)*"\]|\[\d+\])*\s*\)""")


def is_js(text):
    """Is this an expression which is no parameter reference, or has one in it?"""
    if not isinstance(text, str):
        return False
    rest = REF.sub("", text.replace("\\$", ""))
    return "$(" in rest or "${" in rest


def expressions(doc, options, inside=None, path=()):
    """The places of a saved document that have expressions which should be refactored."""
    if isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from expressions(v, options, inside, path + (i,))
    elif isinstance(doc, dict):
        cls = doc.get("class")
        if cls in ("Workflow", "CommandLineTool", "ExpressionTool"):
            inside = cls
        for k, v in doc.items():
            if k == "expression" and inside == "ExpressionTool":
                if "--etools" not in options:
                    yield path + (k,)
                continue
            if k in ("expressionLib", "doc", "label", "default"):
                continue
            if "--skip-some2" in options and k in ("InitialWorkDirRequirement", "listing"):
                continue
            if inside == "CommandLineTool":
                if "--skip-some1" in options and (k == "arguments" or k == "inputBinding"):
                    continue
                if "--skip-some2" in options and (k == "outputEval" or k == "listing" or k == "InitialWorkDirRequirement"):
                    continue
                if k == "baseCommand" or doc.get("entryname") == "expression.js":
                    continue
            if is_js(v):
                yield path + (k,)
            else:
                yield from expressions(v, options, inside, path + (k,))


def interface(process):
    def t(x):
        s = x.type_ if not isinstance(x.type_, str) or x.type_ not in ("stdout", "stderr") else "File"
        return json.dumps(simple(s), sort_keys=True)

    return {n: {p.id.split("#")[-1].split("/")[-1]: t(p) for p in getattr(process, n)} for n in ("inputs", "outputs")}


def simple(t):
    if isinstance(t, (list, tuple)):
        return [simple(x) for x in t]
    if hasattr(t, "type_"):
        if t.type_ == "array":
            return {"array": simple(t.items)}
        if t.type_ == "enum":
            return {"enum": sorted(s.split("/")[-1].split("#")[-1] for s in t.symbols)}
        return {"record": {f.name.split("/")[-1]: simple(f.type_) for f in t.fields or []}}
    return t


def check(case, ctx):
    base, job = write(case)
    logging.disable(logging.CRITICAL)
    try:
        check_in(case, ctx, base, job)
    finally:
        logging.disable(logging.NOTSET)
        shutil.rmtree(base, ignore_errors=True)


def check_in(case, ctx, base, job):
    src = os.path.join(base, "src", case["entry"])
    before = snapshot(os.path.join(base, "src"))
    for f in case["features"]:
        ctx.label(f)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            code = expression_refactor.run(case["options"] + [os.path.join(base, "out"), src])
        except SystemExit as e:
            raise Violation("exit %s" % e.code)
    if snapshot(os.path.join(base, "src")) != before:
        raise Violation("the sources change")
    todo = sorted(set(p for f in case["files"].values() for p in map(str, expressions(f, case["options"])))) if case["entry"] == "wf.cwl" else list(map(str, expressions(case["files"][case["entry"]], case["options"])))
    out = os.path.join(base, "out", case["entry"])
    if code == 7:
        if todo:
            raise Violation("reported as unmodified with expressions at %s" % todo)
        if os.listdir(os.path.join(base, "out")):
            raise Violation("reported as unmodified and written")
        ctx.label("unmodified")
        return
    if code != 0:
        raise Violation("refactoring gives %s" % code)
    if not todo and not case["features"]:
        raise Violation("a document without expressions is modified")
    got, want = load_document_by_uri(out), load_document_by_uri(src)
    if got.cwlVersion != case["version"]:
        raise Violation("the version is %s" % got.cwlVersion)
    if interface(got) != interface(want):
        raise Violation("the interface is %s instead of %s" % (interface(got), interface(want)))
    from ruamel.yaml import YAML
    with open(out) as f:
        saved = YAML(typ="safe").load(f)
    left = list(map(str, expressions(saved, case["options"])))
    if left:
        raise Violation("expressions are left at %s" % left)
    r0 = cwlrun.run(src, job, base)
    if r0[0] != "ok":
        ctx.label("original fails")
        raise Inconclusive("original: " + r0[1][-600:])
    r1 = cwlrun.run(out, job, base)
    ctx.nontrivial()
    for o in case["options"]:
        ctx.label(o)
    if r1[0] != "ok":
        raise Violation("the result does not run: " + r1[1][-700:])
    if r1[1] != r0[1]:
        raise Violation("the result gives %s instead of %s" % (json.dumps(r1[1])[:300], json.dumps(r0[1])[:300]))


def setup():
    import cwltool.main  # noqa: F401


PROPS = [Prop("runs", refgen.cases(), check, quick=480, thorough=12000, setup=setup)]
