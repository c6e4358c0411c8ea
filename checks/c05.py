"""C05: string interpolation and escaping.

A case is a list of segments; the segments are the model of the result.
"""

import json
import warnings

from hypothesis import strategies as st

from lib.jsgen import js_value_expr, js_string
from lib.pbt import Prop, Violation
from lib.util import SCALAR, TEXT_ALPHABET, WORDS, json_values, match_pieces, merge_lits, same, text

from cwl_utils.errors import WorkflowException
from cwl_utils.expression import do_eval, interpolate
from cwl_utils.sandboxjs import JSEngine, get_js_engine

RULE = ("A case is a CWL version, an inputs object and 1-8 segments (literal text, escapes, parameter references, "
        "JavaScript); non-trivial when it has at least one reference or escape together with other segments, "
        "or an error is provoked.")
ASSUMPTIONS = ["node is on PATH", "JavaScript regular expression literals, comments and template strings are not "
               "generated inside $() (the specification's scanner does not know them)"]

OLD = ["v1.0", "v1.1", "v1.1.0-dev1", "v1.2.0-dev1", "v1.2.0-dev2", "v1.2.0-dev3"]
NEW = ["v1.2", "v1.2.0-dev4", "v1.2.0-dev5", "v1.2.0"]
VERSIONS = ["v1.0", "v1.1", "v1.2", "v1.2"] + OLD + NEW
ESC_CHARS = "\\\\$abnrtx0\"'(){}[]$.é😀"


@st.composite
def segment(draw, js):
    kind = draw(st.sampled_from(["text", "text", "esc", "escref", "ref", "ref"] + (["js", "js", "body"] if js else [])))
    if kind == "text":
        return ["text", draw(text(8, TEXT_ALPHABET + "$$"))]
    if kind == "esc":
        return ["esc", draw(st.sampled_from(ESC_CHARS))]
    if kind == "escref":
        return ["escref", draw(st.sampled_from(["(", "{"]))]
    if kind == "ref":
        return ["ref", draw(st.sampled_from(["inputs", "self", "runtime"])), draw(st.sampled_from(WORDS))]
    src, val = draw(js_value_expr(inputs_keys=WORDS))
    return [kind, src, val]


@st.composite
def cases(draw):
    js = draw(st.booleans())
    segs = draw(st.lists(segment(js), min_size=1, max_size=8))
    vals = {w: draw(json_values(st.sampled_from(WORDS), 5)) for w in draw(st.lists(st.sampled_from(WORDS), max_size=3, unique=True))}
    for s in segs:  # referenced keys exist
        if s[0] == "ref" and s[1] != "runtime" and s[2] not in vals:
            vals[s[2]] = draw(json_values(st.sampled_from(WORDS), 5))
        if s[0] in ("js", "body"):
            for w in WORDS:
                if "inputs." + w in s[1] or "inputs['" + w in s[1]:
                    pass
    tail = draw(st.booleans()) and draw(st.booleans())
    return {"version": draw(st.sampled_from(VERSIONS)), "js": js, "segs": segs, "vals": vals, "tail": tail,
            "strip": draw(st.sampled_from([True, True, False])), "engine": draw(st.sampled_from([None] * 12 + ["own", "async"]))}


RES = {"cores": 2, "ram": 1024}
RUNTIME = {"cores": 2, "ram": 1024, "tmpdir": "/tmp/x", "outdir": "/out"}


def render(case):
    """(source, pieces); pieces are the expected output."""
    out, pieces = "", []
    old = case["version"] in OLD
    for s in case["segs"]:
        k = s[0]
        if k == "text":
            t = s[1]
            if out.endswith("$") and t[:1] in ("(", "{") and t:
                t = " " + t
            t = t.replace("$(", "$ (").replace("${", "$ {").replace("\\", "/")
            out += t
            pieces.append(("lit", t))
        elif k == "esc":
            out += "\\" + s[1]
            if old:
                pieces.append(("lit", s[1]))
            elif s[1] == "\\":
                pieces.append(("lit", "\\"))
            else:
                pieces.append(("lit", "\\" + s[1]))
        elif k == "escref":
            out += "\\$" + s[1]
            pieces.append(("lit", "$" + s[1]))
        elif k == "ref":
            key = "cores" if s[1] == "runtime" else s[2]
            out += "$(%s.%s)" % (s[1], key)
            v = RUNTIME["cores"] if s[1] == "runtime" else case["vals"][key]
            pieces.append(("val", v))
        elif k == "js":
            if out.endswith("\\"):
                pass
            out += "$(" + s[1] + ")"
            pieces.append(("val", s[2]))
        else:
            out += "${return " + s[1] + ";}"
            pieces.append(("val", s[2]))
    if case["tail"]:
        out += "\\"
        pieces.append(("lit", "\\"))
    return out, pieces


def expected(case):
    src, pieces = render(case)
    if "$(" not in src and "${" not in src:
        return src, ("value", src)
    if case["strip"]:
        # surrounding white space is dropped; it can only lie in literal pieces
        ltrim = len(src) - len(src.lstrip())
        rtrim = len(src) - len(src.rstrip())
        pieces = list(pieces)
        while ltrim:
            k, v = pieces[0]
            n = min(ltrim, len(v))
            pieces[0] = (k, v[n:])
            ltrim -= n
            if not pieces[0][1]:
                pieces.pop(0)
        while rtrim:
            k, v = pieces[-1]
            n = min(rtrim, len(v))
            pieces[-1] = (k, v[:-n])
            rtrim -= n
            if not pieces[-1][1]:
                pieces.pop()
    pieces = [p for p in pieces if p[1] != "" or p[0] == "val"]
    if len(pieces) == 1 and pieces[0][0] == "val":
        return src, ("value", pieces[0][1])
    res = []
    for k, v in pieces:
        if k == "val":
            res.append(("lit", v) if isinstance(v, str) else ("json", v))
        else:
            res.append((k, v))
    return src, ("pieces", merge_lits(res))


class Own(JSEngine):
    """An engine given by the caller: the default one, and a count of its uses."""

    def __init__(self):
        self.used = 0

    def eval(self, *args, **kwargs):
        self.used += 1
        return get_js_engine().eval(*args, **kwargs)

    def regex_eval(self, *args, **kwargs):
        self.used += 1
        return get_js_engine().regex_eval(*args, **kwargs)


class Async(Own):
    async def eval(self, *args, **kwargs):
        return Own.eval(self, *args, **kwargs)

    async def regex_eval(self, *args, **kwargs):
        return Own.regex_eval(self, *args, **kwargs)


REQ = [{"class": "InlineJavascriptRequirement"}]


def evaluate(case, src, **kwargs):
    return do_eval(src, case["vals"], REQ if case["js"] else [], "/out", "/tmp/x", dict(RES), context=case["vals"],
                   cwlVersion=case["version"], strip_whitespace=case["strip"], **kwargs)


def check(case, ctx):
    # a backslash text segment cannot precede: guard the one ambiguous join
    src, (kind, exp) = expected(case)
    kinds = {s[0] for s in case["segs"]}
    if case["engine"]:
        engine = {"own": Own, "async": Async}[case["engine"]]()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = evaluate(case, src, js_engine=engine)
        # "$(null)" needs no engine
        if not engine.used and any(x[0] in ("ref", "body") or x[0] == "js" and x[1] != "null" for x in case["segs"]):
            raise Violation("%r is not evaluated by the given engine" % src)
    else:
        got = evaluate(case, src)
    if len(case["segs"]) > 1 and kinds & {"esc", "escref", "ref", "js", "body"}:
        ctx.nontrivial()
    ctx.label(*kinds, "old" if case["version"] in OLD else "new", kind)
    ok = same(got, exp) if kind == "value" else isinstance(got, str) and match_pieces(got, exp)
    if not ok:
        raise Violation("cwlVersion %s: %r evaluated to %r, expected %r" % (case["version"], src, got, exp))


# --- text with expressions, converted to one expression --------------------------------------------------------


@st.composite
def converted_cases(draw):
    return dict(draw(cases()), js=True, engine=None)


def check_converted(case, ctx):
    src, (kind, exp) = expected(case)
    if kind == "value" or any(s[0] == "ref" and not s[2].isidentifier() for s in case["segs"]):
        return  # one expression needs no conversion; the reference is not JavaScript
    behavior = 1 if case["version"] in OLD else 2
    expr = interpolate(src, {}, fullJS=True, strip_whitespace=case["strip"], escaping_behavior=behavior, convert_to_expression=True)
    if not (isinstance(expr, str) and expr.startswith("${")):
        raise Violation("%r is converted to %r" % (src, expr))
    try:
        got = evaluate(case, expr)
    except WorkflowException as e:
        raise Violation("%r is converted to %r, which fails: %s" % (src, expr, str(e)[:300])) from e
    if {"ref", "js", "body"} & {s[0] for s in case["segs"]}:
        ctx.nontrivial()
    ctx.label("pieces:%d" % min(len(exp), 6))
    if not (isinstance(got, str) and match_pieces(got, exp)):
        raise Violation("cwlVersion %s: %r is converted to %r, which gives %r instead of %r" % (case["version"], src, expr, got, exp))


# --- malformed and failing -------------------------------------------------------------------------------------

BAD = {
    "unclosed_paren": lambda w: "$(inputs.%s" % w,
    "unclosed_brace": lambda w: "${return 1;",
    "unclosed_nested": lambda w: "$(inputs['%s)" % w,
    "unclosed_quote": lambda w: "$(inputs[\"%s)]" % w,
    "missing_key": lambda w: "$(inputs.nope_%s)" % w,
    "unknown_root": lambda w: "$(outputs.%s)" % w,
    "syntax": lambda w: "$(inputs. %s)" % w,
    "js": lambda w: "$(1+1)",
    "body": lambda w: "${return 1;}",
    "thrown": lambda w: "${throw new Error('%s');}" % w,
    "undefined": lambda w: "$(inputs.nope_%s.deep)" % w,
    "empty": lambda w: "$()",
}
BAD_WITH_JS = ["unclosed_paren", "unclosed_brace", "unclosed_nested", "unclosed_quote", "missing_key", "unknown_root",
               "thrown", "undefined", "empty"]


@st.composite
def bad_cases(draw):
    js = draw(st.booleans())
    return {"js": js, "bad": draw(st.sampled_from(BAD_WITH_JS if js else sorted(BAD))), "w": draw(st.sampled_from(WORDS[:6])),
            "pre": draw(st.sampled_from(["", "text ", "$(inputs.ok) ", "é"])), "post": draw(st.sampled_from(["", " tail", " $(inputs.ok)"])),
            "version": draw(st.sampled_from(VERSIONS))}


def check_bad(case, ctx):
    post = "" if case["bad"].startswith("unclosed") else case["post"]
    src = case["pre"] + BAD[case["bad"]](case["w"]) + post
    ctx.nontrivial()
    ctx.label(case["bad"])
    try:
        got = do_eval(src, {"ok": 1}, REQ if case["js"] else [], "/out", "/tmp/x", dict(RES), cwlVersion=case["version"])
    except WorkflowException:
        return
    raise Violation("%r (js=%s, %s) evaluated to %r instead of raising" % (src, case["js"], case["version"], got))


# --- values that are not strings with expressions are returned as they are; expression libraries ---------------


@st.composite
def plain_cases(draw):
    v = draw(json_values(st.sampled_from(WORDS), 6))
    return {"v": v, "js": draw(st.booleans())}


def check_plain(case, ctx):
    v = case["v"]
    if isinstance(v, str) and ("$(" in v or "${" in v):
        return
    if not isinstance(v, (str, int)) or v == "":
        ctx.nontrivial()
    got = do_eval(v, {}, REQ if case["js"] else [], None, None, {})
    if not same(got, v):
        raise Violation("%r evaluated to %r" % (v, got))


@st.composite
def lib_cases(draw):
    libs = draw(st.lists(st.lists(st.tuples(st.sampled_from(["f", "g", "h"]), st.integers(0, 9)), min_size=0, max_size=3), min_size=1, max_size=3))
    return {"libs": [[list(x) for x in lib] for lib in libs], "call": draw(st.sampled_from(["f", "g", "h"])),
            "arg": draw(st.integers(0, 9)), "other": draw(st.booleans())}


def check_lib(case, ctx):
    """The last InlineJavascriptRequirement is in force; its library and inputs are visible."""
    reqs = []
    for lib in case["libs"]:
        reqs.append({"class": "InlineJavascriptRequirement",
                     "expressionLib": ["function %s(x) { return x * 10 + %d; }" % (n, k) for n, k in lib]})
        if case["other"]:
            reqs.append({"class": "DockerRequirement", "dockerPull": "x"})
    env = dict(case["libs"][-1])
    src = "$(%s(inputs.n) + self + runtime.cores)" % case["call"]
    ctx.label("defined" if case["call"] in env else "undefined")
    if len(case["libs"]) > 1:
        ctx.nontrivial()
    try:
        got = do_eval(src, {"n": case["arg"]}, reqs, "/o", "/t", {"cores": 3}, context=100)
    except WorkflowException as e:
        if case["call"] in env:
            raise Violation("%s with libraries %s raised %s" % (src, case["libs"], e)) from e
        return
    if case["call"] not in env:
        raise Violation("%s is not defined by the last requirement of %s, but gave %r" % (case["call"], case["libs"], got))
    exp = case["arg"] * 10 + env[case["call"]] + 103
    if got != exp:
        raise Violation("%s gave %r, expected %r (%s)" % (src, got, exp, case["libs"]))


PROPS = [
    Prop("interpolate", cases(), check, 16000, 300000),
    Prop("converted", converted_cases(), check_converted, 2400, 40000),
    Prop("malformed", bad_cases(), check_bad, 1200, 6000),
    Prop("plain", plain_cases(), check_plain, 1600, 10000),
    Prop("library", lib_cases(), check_lib, 1200, 8000),
]
