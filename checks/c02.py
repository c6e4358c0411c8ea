"""C02: the loaders accept exactly the valid documents and resolve identifiers and references."""

import collections
import copy
import json

from hypothesis import strategies as st
from schema_salad.runtime import Saveable

from lib import corrupt, salad
from lib.canonical import blank, canonical
from lib.docgen import documents
from lib.pbt import Inconclusive, Prop, Violation
from lib.scratch import doc_uri

import cwl_utils.parser as cwl

RULE = ("A case is a schema-valid document with up to 5 single corruptions (drop, replace, rename, add at a random place), loaded "
        "from text or from parsed YAML; or a valid document whose resolved URIs are compared; or one with a dangling file "
        "reference. Non-trivial when at least one corruption is rejected / at least 3 URI fields are compared.")
ASSUMPTIONS = ["validity is decided by schema-salad interpreting the CWL schemas shipped with cwltool (independent of the "
               "generated parsers in cwl_utils), plus: parameters and steps need an id, and ids in a list are unique",
               "lists directly inside lists are flattened by the loaders (JSON-LD sets) and decide nothing",
               "corruptions on which the reference itself fails with an internal error decide nothing about acceptance"]


def load(doc, mode, uri):
    if mode == "text":
        return cwl.load_document_by_string(json.dumps(doc), uri)
    return cwl.load_document_by_yaml(copy.deepcopy(doc), uri)


def nested_list(doc, c):
    kind, p = c[0], c[1]
    if kind == "set":
        v = c[2]
        if isinstance(v, list) and (p and isinstance(p[-1], int) or any(isinstance(i, list) for i in v)):
            return True
        return len(p) > 1 and isinstance(p[-1], int) and isinstance(p[-2], int)
    if kind == "add":
        if isinstance(c[3], list) and any(isinstance(i, list) for i in c[3]):
            return True
        target = doc
        for k in p:
            target = target[k]
        return isinstance(target, list) and (isinstance(c[3], list) or bool(p) and isinstance(p[-1], int))
    return False


def id_problem(x, key=None):
    """A parameter or step in list form without id, or an id twice in one list."""
    out = set()
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("default", "hints") or ":" in k:
                continue
            if k in ("inputs", "outputs", "steps", "in", "out") and isinstance(v, list):
                ids = []
                for i in v:
                    if isinstance(i, dict):
                        if "id" not in i:
                            out.add("missing")
                        else:
                            ids.append(str(i["id"]))
                if len(set(ids)) != len(ids):
                    out.add("duplicate")
            out |= id_problem(v, k)
    elif isinstance(x, list):
        for v in x:
            out |= id_problem(v, key)
    return out


def undecidable(c):
    """Corruptions the reference accepts without looking: identifier fields where none belongs, and an expression as a
    type name, which it leaves unresolved (its link check is not run)."""
    if c[0] in ("rename", "add") and c[2] in ("id", "name") or c[0] == "rename" and c[2] == "items":
        return True
    if {"path", "location"} & set(map(str, c[1] + c[2:3])):
        return True     # files must exist
    if not {"type", "items", "fields", "inputs", "outputs"} & set(map(str, c[1])):
        return False
    if {"inputBinding", "outputBinding", "format", "secondaryFiles"} & set(map(str, c[1])):
        return False
    values = [v for v in c[2:] if isinstance(v, str)] + [i for v in c[2:] if isinstance(v, list) for i in v if isinstance(i, str)]
    return any(v.startswith("$") for v in values)


def free_form(c):
    """Inside a default value or a hint anything goes; a list of texts is also taken as doc of a record field (as CWL v1.1
    allows, and v1.0 does not)."""
    p = c[1]
    if "fields" in p and "doc" in p[-1:] + c[2:3]:
        return True
    if "default" in p or any(str(k).startswith("ex:") for k in p):
        return True
    return "hints" in p and not (c[0] in ("set", "drop") and p.index("hints") >= len(p) - 2)


def reference(m, uri, version):
    try:
        r, ld = salad.resolve(m, uri, version)
        salad.validate(r, ld, version)
        return "valid", ""
    except salad.SchemaSaladException as e:
        return "invalid", str(e)
    except Exception as e:  # noqa: BLE001
        return "error", repr(e)


@st.composite
def corrupted(draw):
    doc = draw(documents())
    return {"doc": doc, "cs": draw(st.lists(corrupt.corruption(doc), min_size=1, max_size=5)),
            "mode": draw(st.sampled_from(["text", "yaml"]))}


def check_accept(case, ctx):
    uri = doc_uri()
    doc = case["doc"]
    version = doc["cwlVersion"]
    for c in case["cs"]:
        m = corrupt.apply(doc, c)
        ref, why = reference(m, uri, version)
        try:
            got = load(m, case["mode"], uri)
            ok = True
        except salad.ValidationException as e:
            ok, got = False, e
        except salad.SchemaSaladException as e:
            raise Violation("rejected with %s instead of ValidationException: %s" % (type(e).__name__, e)) from e
        # any other exception is reported by the driver
        if nested_list(doc, c):
            ctx.label("nested list")
            continue
        if ref == "error":
            ctx.label("reference undecided")
            continue
        valid = ref == "valid"
        idp = id_problem(m)
        if valid and "duplicate" in idp:
            if case["mode"] == "yaml":
                continue
            valid, why = False, "the same id twice"
        if valid and "missing" in idp:
            valid, why = False, "missing id"
        if valid and not ok and "undefined reference to" in str(got) and ("/run" in "/".join(map(str, c[1])) or "run" in c[2:]):
            ctx.label("run of a missing file")
            continue
        if valid and not ok and undecidable(c):
            ctx.label("reference too lenient")
            continue
        if valid and not ok:
            raise Violation("valid %s document rejected after %r:\n%s\n%s" % (version, c, json.dumps(m)[:2000], str(got)[-1500:]))
        if not valid and ok and free_form(c):
            ctx.label("reference too strict")    # it also looks into values that may be anything
            continue
        if not valid and ok:
            raise Violation("invalid %s document accepted after %r (%s):\n%s" % (version, c, why[-600:], json.dumps(m)[:2000]))
        ctx.label("%s %s %s" % (version, c[0], "accepted" if ok else "rejected"))
        if not ok:
            ctx.nontrivial()


URI_FIELDS = {"id", "name", "source", "outputSource", "scatter", "run", "format", "symbols", "items", "type", "loopSource", "secrets",
              "out", "intent", "linkMerge", "scatterMethod", "pickValue", "loadListing"}


def obj_uris(o, out):
    if isinstance(o, Saveable):
        for k, v in vars(o).items():
            if k in ("loadingOptions", "extension_fields", "default"):
                continue
            n = k[:-1] if k in ("class_", "in_", "type_") else k
            if n in URI_FIELDS:
                take(n, v, out)
            obj_uris(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            obj_uris(v, out)


def take(n, v, out):
    if isinstance(v, str):
        if not blank(v):
            out[n, v] += 1
    elif isinstance(v, list):
        for i in v:
            if isinstance(i, str):
                out[n, i] += 1


def ref_uris(x, out, key=None):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "default" or k.startswith(("http:", "https:")):
                continue
            if k in URI_FIELDS:
                take(k, v, out)
            ref_uris(v, out, k)
    elif isinstance(x, list):
        for v in x:
            ref_uris(v, out, key)


def check_resolve(case, ctx):
    uri = doc_uri()
    doc = case["doc"]
    version = doc["cwlVersion"]
    want, got = collections.Counter(), collections.Counter()
    canon = canonical(doc, uri, version)
    obj = load(doc, case["mode"], uri)
    ref_uris(drop_unknown_hints(canon), want)
    obj_uris(obj, got)
    if "id" not in doc:
        if got["id", uri] != 1:
            raise Violation("a document without id must have the id %s" % uri)
        del got["id", uri]
    if want != got:
        raise Violation("resolved URIs differ: expected %r, got %r" % (sorted((want - got).elements())[:6], sorted((got - want).elements())[:6]))
    ctx.label(version, *{n for n, _ in want})
    if sum(want.values()) >= 3:
        ctx.nontrivial()


def drop_unknown_hints(x):
    """Unknown hints, and all hints of a step, are kept as written."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == "hints" and isinstance(v, list):
                if "run" in x and "in" in x:
                    continue
                v = [h for h in v if str(h.get("class")).rsplit("#", 1)[-1][:4] != "Hint"]
            out[k] = drop_unknown_hints(v)
        return out
    if isinstance(x, list):
        return [drop_unknown_hints(v) for v in x]
    return x


@st.composite
def plain(draw):
    return {"doc": draw(documents()), "mode": draw(st.sampled_from(["text", "yaml"]))}


@st.composite
def dangling(draw):
    """A reference to a file that exists or not."""
    version = draw(st.sampled_from(salad.VERSIONS))
    target = draw(st.sampled_from(["missing.cwl", "sub/missing.cwl", "missing.cwl#main", "../nowhere/x.cwl", "other.cwl", "sub/other2.cwl"]))
    return {"version": version, "where": draw(st.sampled_from(["run", "import", "include", "import step", "nested run", "import type"])),
            "target": target, "mode": draw(st.sampled_from(["text", "yaml"]))}


def check_dangling(case, ctx):
    uri = doc_uri()
    t, w = case["target"], case["where"]
    exists = not ("missing" in t or "nowhere" in t)
    tool = {"class": "CommandLineTool", "inputs": [], "outputs": []}
    wf = {"class": "Workflow", "inputs": [], "outputs": [], "steps": []}
    step = {"id": "s", "in": [], "out": [], "run": t}
    if w == "run":
        doc = dict(wf, steps=[step])
    elif w == "nested run":
        doc = dict(wf, steps=[{"id": "o", "in": [], "out": [], "run": dict(wf, steps=[step])}])
    elif w == "import":
        doc = dict(tool, requirements=[{"$import": t}])
    elif w == "import step":
        doc = dict(wf, steps=[{"id": "s", "in": [], "out": [], "run": {"$import": t}}])
    elif w == "import type":
        doc = dict(tool, requirements=[{"class": "SchemaDefRequirement", "types": [{"$import": t}]}])
    else:
        doc = dict(tool, requirements=[{"class": "InlineJavascriptRequirement", "expressionLib": [{"$include": t}]}])
    doc["cwlVersion"] = case["version"]
    if exists and w.startswith("import"):
        raise Inconclusive
    try:
        load(doc, case["mode"], uri)
        ok = True
    except salad.ValidationException:
        ok = False
    if ok != exists:
        raise Violation("%s of %s: %s" % (w, t, "accepted although the file does not exist" if ok else "rejected although the file exists"))
    ctx.label(w, "exists" if exists else "dangling")
    if not exists:
        ctx.nontrivial()


PROPS = [
    Prop("accept", corrupted(), check_accept, 3600, 100000),
    Prop("resolve", plain(), check_resolve, 1800, 40000),
    Prop("dangling", dangling(), check_dangling, 160, 600),
]
