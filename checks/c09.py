"""C09: the workflow static checker."""

import collections
import logging
import os
import re

from lib import types_model as tm
from lib import wfgen
from lib.pbt import Prop, Violation

from schema_salad.exceptions import ValidationException

import cwl_utils.parser as cwlparser
import cwl_utils.parser.utils as pu

from hypothesis import strategies as st

RULE = ("A case is a workflow (inputs, steps with inline, file or graph processes, scatter, conditions, loops, merging, "
        "value expressions, outputs) of one version; non-trivial when it has at least two links and one of them is "
        "incompatible, partially compatible, merged or scattered.")
ASSUMPTIONS = ["warnings that are matters of taste (a null that a default, pickValue or valueFrom takes care of; null from a scattered "
               "conditional step) may or may not be given"]

PAIR = re.compile(r"Source '([^']*)' of type .*?with sink '([^']*)' of type", re.S)
REQ = re.compile(r"Required parameter '([^']*)'")


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.out = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.out.append(record.getMessage())


def run_checker(uri):
    wf = cwlparser.load_document_by_uri(uri)
    lg = logging.getLogger("cwl_utils")
    h = Capture()
    old = lg.handlers[:], lg.propagate, lg.level, logging.root.manager.disable
    lg.handlers, lg.propagate = [h], False
    lg.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        err = None
        try:
            pu.static_checker(wf)
        except ValidationException as e:
            err = str(e)
    finally:
        lg.handlers, lg.propagate = old[0], old[1]
        lg.setLevel(old[2])
        logging.disable(old[3])
    warn = "\n".join(h.out)
    return err, warn


def pairs(text):
    return collections.Counter(PAIR.findall(text or ""))


def check_one(case, uri, what):
    exc, must, may, missing = wfgen.expected(case)
    err, warn = run_checker(uri)
    want, got = collections.Counter(exc), pairs(err)
    if set(got) != set(want):
        raise Violation("%s: incompatible links %s, the checker reports %s\n%s" % (what, sorted(want), sorted(got), (err or "")[:1500]))
    req = REQ.findall(err or "")
    if sorted(req) != sorted(missing):
        raise Violation("%s: required parameters without a value %s, the checker reports %s\n%s" % (what, missing, req, (err or "")[:800]))
    if err is not None and not exc and not missing:
        raise Violation("%s: the checker refuses a workflow without incompatible links: %s" % (what, err[:1500]))
    if err is None and (exc or missing):
        raise Violation("%s: accepted although %s are incompatible and %s missing" % (what, exc, missing))
    gw = pairs(warn)
    if set(must) - set(gw):
        raise Violation("%s: partially compatible links %s, the checker warns about %s only" % (what, sorted(set(must)), sorted(gw)))
    if set(gw) - set(must) - set(may):
        raise Violation("%s: warning about %s, but only %s are partially compatible\n%s" % (what, sorted(set(gw) - set(must) - set(may)), sorted(set(must)), warn[:1500]))
    if warn and not must and not may:
        raise Violation("%s: warning for a workflow whose links are all compatible: %s" % (what, warn[:800]))
    return exc, must, missing


def check(case, ctx):
    root = os.path.join(os.environ["TMPDIR"], "c09")
    g = case["whole_graph"]
    exc, must, missing = check_one(case, wfgen.render(case, root, 0, whole_graph=g), "workflow")
    if case["perm"]:
        check_one(case, wfgen.render(case, root, case["perm"], whole_graph=g), "workflow with its lists in another order")
    n = sum(len(srcs) for _, _, _, _, srcs in wfgen.links(case))
    special = exc or must or missing or any(p["linkMerge"] or len(p["sources"]) > 1 for _, _, p, _, _ in wfgen.links(case)) or any(s["scatter"] for s in case["steps"])
    if n >= 2 and special:
        ctx.nontrivial()
    ctx.label("version:" + case["version"], "exc" if exc else "no-exc", "warn" if must else "no-warn")
    for s in case["steps"]:
        ctx.label("mode:" + s["mode"], "kind:" + s["kind"])
        for f in ("when", "loop", "scatterMethod"):
            if s.get(f):
                ctx.label("%s:%s" % (f, s[f]))
        if s["scatter"]:
            ctx.label("scatter")
    for _, _, p, _, srcs in wfgen.links(case):
        ctx.label("merge:%s" % p["linkMerge"], "sources:%d" % len(srcs))
        if p.get("pickValue"):
            ctx.label("pick:" + p["pickValue"])
        if p.get("valueFrom"):
            ctx.label("valueFrom")
    if missing:
        ctx.label("missing")


@st.composite
def cases(draw, clean=0.5):
    m = draw(wfgen.workflows(clean=clean))
    m["whole_graph"] = draw(st.integers(0, 3)) == 3
    return m


def check_versions(case, ctx):
    """The same workflow written for each version has the same outcome."""
    root = os.path.join(os.environ["TMPDIR"], "c09v")
    outs = {}
    for v in tm.VERSIONS:
        err, warn = run_checker(wfgen.render(case, root, 0, version=v))
        outs[v] = (sorted(pairs(err)), sorted(REQ.findall(err or "")), err is None, sorted(pairs(warn)))
    if len({repr(o) for o in outs.values()}) != 1:
        raise Violation("the outcome depends on the version: %s" % outs)
    if outs["v1.0"][0] or outs["v1.0"][3]:
        ctx.nontrivial()
    ctx.label("raise" if not outs["v1.0"][2] else "ok")


PROPS = [
    Prop("links", cases(), check, quick=2200, thorough=40000),
    Prop("versions", wfgen.workflows(versions=["v1.0"], clean=0.3), check_versions, quick=300, thorough=6000),
]
