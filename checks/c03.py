"""C03: equivalent spellings load to the same object model."""

import copy
import io
import json
import os
from pathlib import Path

from hypothesis import strategies as st
from ruamel.yaml import YAML
from ruamel.yaml.error import YAMLError

from lib import salad
from lib.canonical import blank, diff
from lib.docgen import documents
from lib.objects import deterministic_uuid, dump
from lib.pbt import Prop, Violation
from lib.scratch import docs_dir, doc_uri

import cwl_utils.parser as cwl

RULE = ("A case is a schema-valid document and a respelled version of it (maps/lists, type and secondaryFiles shorthands, key "
        "order, $import/$include of parts) or another serialization or entry point. Non-trivial when the respelling changed at "
        "least three places.")
ASSUMPTIONS = ["generated blank ids are not compared", "a single secondaryFiles object and a list of one mean the same",
               "$import is only used for parts without identifiers or relative references, because an imported file has its "
               "own base URI"]

MAPS = {"inputs": ("id", "type"), "outputs": ("id", "type"), "steps": ("id", None), "in": ("id", "source"),
        "requirements": ("class", None), "hints": ("class", None), "fields": ("name", "type"), "envDef": ("envName", "envValue"),
        "packages": ("package", "specs")}
OPAQUE = {"default", "listing", "payload"}
PARAMS = {"inputs", "outputs", "fields"}
RECORDS = ("inputBinding", "outputBinding", "requirements", "hints", "arguments", "stdin", "glob")
IDS = {"id", "name", "source", "outputSource", "scatter", "run", "format", "symbols", "fields", "secrets", "loop", "loopSource",
       "location", "path", "intent", "types", "specs", "$schemas", "linkMerge", "listing"}


class Choice:
    def __init__(self, bits):
        self.bits = list(bits)
        self.done = []

    def yes(self, what):
        b = self.bits.pop(0) if self.bits else 0
        if b:
            self.done.append(what)
        return bool(b)


def params(items):
    """Type of this schema element's entries are parameters, not a plain value named like that."""
    return all(isinstance(i, dict) for i in items)


def plainly(x):
    """No identifier or reference that depends on the base URI."""
    if isinstance(x, dict):
        return not (set(x) & IDS) and all(plainly(v) for v in x.values())
    if isinstance(x, list):
        return all(plainly(v) for v in x)
    return True


class Speller:
    def __init__(self, ch, version, files):
        self.ch, self.version, self.files = ch, version, files

    def part(self, v, text=False):
        name = "imp_%d.%s" % (len(self.files), "txt" if text else "yml")
        self.files[name] = v if text else json.dumps(v)
        return {"$include" if text else "$import": name}

    def importable(self, v, where):
        if isinstance(v, dict) and v and plainly(v) and "$import" not in v and "$include" not in v and self.ch.yes("$import " + where):
            return self.part(v)
        if isinstance(v, str) and self.ch.yes("$include " + where):
            return self.part(v, True)
        return v

    def type(self, t):
        """Other spellings of a type field's value."""
        if isinstance(t, dict) and t.get("type") == "array" and set(t) == {"type", "items"} and isinstance(t["items"], str) and "#" not in t["items"]:
            i = t["items"]
            if not i.endswith(("[]", "?")) and self.ch.yes("T[]"):
                return i + "[]"
        if isinstance(t, str) and t.endswith("[]") and not t[:-2].endswith("[]") and self.ch.yes("expand T[]"):
            return {"type": "array", "items": t[:-2]}
        if isinstance(t, str) and t.endswith("?") and self.ch.yes("expand T?"):
            return ["null", self.type(t[:-1])]
        if isinstance(t, list) and len(t) == 2 and t[0] == "null":
            u = self.type(t[1])
            if isinstance(u, str) and not u.endswith("?") and u != "null" and self.ch.yes("T?"):
                return u + "?"
            return ["null", u]
        if isinstance(t, list):
            return [self.type(i) if not (isinstance(i, str) and i.endswith("?")) else i for i in t]
        if isinstance(t, dict):
            return self.record(t, "type")
        return t

    def secondary(self, v):
        """v1.1 and later."""
        if isinstance(v, str) and v.endswith("?") and self.ch.yes("expand secondaryFiles ?"):
            v = {"pattern": v[:-1], "required": False}
        elif isinstance(v, str) and not v.endswith("?") and self.ch.yes("expand secondaryFiles"):
            v = {"pattern": v}
        elif isinstance(v, dict) and set(v) == {"pattern"} and not v["pattern"].endswith("?") and self.ch.yes("secondaryFiles"):
            v = v["pattern"]
        elif isinstance(v, dict) and set(v) == {"pattern", "required"} and v["required"] is False and self.ch.yes("secondaryFiles ?"):
            v = v["pattern"] + "?"
        if not isinstance(v, list) and self.ch.yes("secondaryFiles list"):
            v = [v]
        return v

    def items(self, key, v):
        """A field that may be a map or a list."""
        ident, pred = MAPS[key]
        if isinstance(v, dict):
            if "$import" in v:
                return v
            v = {k: (dict(i) if isinstance(i, dict) else i) for k, i in v.items()}
            if self.ch.yes(key + " to list"):
                out = []
                for k, i in v.items():
                    if not isinstance(i, dict):
                        i = {pred: i}
                    out.append(self.record(dict(i, **{ident: k}), key))
                return [self.item(key, i) for i in out]
            out = {}
            for k, i in v.items():
                if isinstance(i, dict):
                    i = self.record(i, key)
                    if set(i) == {pred} and isinstance(i[pred], (str, list)) and self.ch.yes(key + " shorthand"):
                        i = i[pred]
                elif self.ch.yes(key + " longhand"):
                    i = {pred: i}
                out[k] = i
            return out
        if not isinstance(v, list) or not params(v):
            return v
        if not all(isinstance(i.get(ident), str) for i in v):
            return [self.item(key, i) for i in v]
        ids = [i[ident] for i in v]
        if len(set(ids)) == len(ids) and self.ch.yes(key + " to map"):
            out = {}
            for i in v:
                i = dict(self.record(i, key))
                k = i.pop(ident)
                if set(i) == {pred} and isinstance(i[pred], (str, list)) and self.ch.yes(key + " shorthand"):
                    i = i[pred]
                out[k] = i
            return out
        return [self.item(key, self.record(i, key)) for i in v]

    def item(self, key, i):
        if key in ("requirements", "hints") and isinstance(i, dict):
            return self.importable(i, key)
        return i

    def record(self, x, key):
        if not isinstance(x, dict) or "$import" in x or "$include" in x:
            return x
        unknown = key == "hints" and (str(x.get("class")).startswith("ex:") or any(k.startswith("ex:") for k in x))
        if unknown:
            return x
        out = {}
        keys = list(x)
        if self.ch.yes("key order"):
            keys.reverse()
        for k in keys:
            v = x[k]
            if k in OPAQUE or ":" in k or k.startswith("$"):
                out[k] = v
            elif k == "type" and (key in PARAMS or isinstance(v, (dict, list))) and key != "type":
                out[k] = self.type(v)
            elif k == "items" and isinstance(v, dict):
                out[k] = self.record(v, "type")
            elif k == "secondaryFiles" and self.version != "v1.0" and x.get("class") not in ("File", "Directory"):
                out[k] = self.secondary(v)
            elif k in MAPS and not (k == "fields" and key != "type" and key not in PARAMS):
                if k == "hints" and "run" in x:
                    out[k] = v     # kept as written
                else:
                    out[k] = self.items(k, v)
            elif k == "run" and isinstance(v, dict):
                out[k] = self.record(v, "run")
            elif k in ("inputBinding", "outputBinding"):
                out[k] = self.importable(self.record(v, k), k)
            elif k in ("label", "doc", "stdin", "stdout", "stderr", "expression", "glob", "valueFrom", "outputEval", "prefix") and isinstance(v, str):
                out[k] = self.importable(v, k)
            elif k in ("expressionLib", "arguments", "doc") and isinstance(v, list):
                out[k] = [self.importable(i, k) for i in v]
            elif isinstance(v, dict) and k not in ("dockerPull",):
                out[k] = self.record(v, k)
            else:
                out[k] = v
        return out


def normal(x, key=None):
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ("id", "name") and blank(v):
                v = None
            if k == "secondaryFiles" and v is not None and not isinstance(v, list) and "SecondaryFileSchema" in str(v):
                v = [v]
            out[k] = normal(v, k)
        return out
    if isinstance(x, list):
        return [normal(v, key) for v in x]
    return x


def write(files):
    for n, t in files.items():
        with open(os.path.join(docs_dir(), n), "w") as f:
            f.write(t)


def load(doc, mode, uri):
    deterministic_uuid()
    if mode == "text":
        return cwl.load_document_by_string(json.dumps(doc), uri)
    return cwl.load_document_by_yaml(copy.deepcopy(doc), uri)


@st.composite
def respelled(draw):
    # (the first choices apply to the outermost fields)
    return {"doc": draw(documents()), "bits": draw(st.lists(st.integers(0, 1), min_size=20, max_size=150)),
            "mode": draw(st.sampled_from(["text", "yaml"]))}


def check_spelling(case, ctx):
    uri = doc_uri()
    doc = case["doc"]
    files = {}
    ch = Choice(case["bits"])
    other = Speller(ch, doc["cwlVersion"], files).record(doc, "run")
    write(files)
    a = load(doc, case["mode"], uri)
    try:
        b = load(other, case["mode"], uri)
    except salad.ValidationException as e:
        raise Violation("respelled document (%s) rejected: %s\n%s" % (sorted(set(ch.done)), str(e)[-800:], json.dumps(other)[:1500])) from e
    d = next(diff(normal(dump(a)), normal(dump(b))), None)
    if d:
        raise Violation("respelled document (%s) loads to something else: %s\n%s" % (sorted(set(ch.done)), d, json.dumps(other)[:1500]))
    ctx.label(doc["cwlVersion"], *ch.done)
    if len(ch.done) >= 3:
        ctx.nontrivial()


@st.composite
def entries(draw):
    return {"doc": draw(documents()), "flow": draw(st.booleans()), "width": draw(st.sampled_from([80, 4000]))}


def check_entry(case, ctx):
    """The same document given in every way."""
    doc = case["doc"]
    uri = doc_uri("entry.cwl")
    path = Path(docs_dir(), "entry.cwl")
    y = YAML(typ="safe", pure=True)
    y.default_flow_style = case["flow"]
    y.width = case["width"]
    y.sort_base_mapping_type_on_output = False
    buf = io.StringIO()
    y.dump(doc, buf)
    text = buf.getvalue()
    try:
        same = json.dumps(YAML(typ="safe", pure=True).load(text), default=repr) == json.dumps(doc)
    except YAMLError:
        same = False
    if not same:
        ctx.label("not representable")
        return
    path.write_text(text, encoding="utf-8")
    first = None
    forms = {
        "path": lambda: cwl.load_document_by_uri(path), "str": lambda: cwl.load_document_by_uri(str(path)),
        "uri": lambda: cwl.load_document_by_uri(uri), "relative": lambda: cwl.load_document_by_uri(os.path.relpath(path)),
        "string": lambda: cwl.load_document_by_string(text, uri), "json": lambda: cwl.load_document_by_string(json.dumps(doc), uri),
        "yaml": lambda: cwl.load_document_by_yaml(copy.deepcopy(doc), uri), "load_document text": lambda: cwl.load_document(text, uri),
        "load_document yaml": lambda: cwl.load_document(copy.deepcopy(doc), uri),
    }
    for name, f in forms.items():
        deterministic_uuid()
        o = f()
        s = dump(o)
        if first is None:
            first, fo = s, o
            continue
        d = next(diff(normal(first), normal(s)), None)
        if d:
            raise Violation("given as %s the document differs from the one given as path: %s" % (name, d))
        if not (fo == o or "_:" in json.dumps(s)):
            raise Violation("given as %s the object is not == to the one given as path" % name)
    ctx.label(doc["cwlVersion"], "flow" if case["flow"] else "block")
    if len(json.dumps(doc)) > 400:
        ctx.nontrivial()


@st.composite
def imported(draw):
    return {"doc": draw(documents()), "mode": draw(st.sampled_from(["text", "yaml"])), "how": draw(st.sampled_from(["list", "map"]))}


def check_import(case, ctx):
    """An imported process is the process that the file holds, with the file's own base URI."""
    doc = case["doc"]
    Path(docs_dir(), "whole.cwl").write_text(json.dumps(doc))
    step = {"in": [], "out": [], "run": {"$import": "../whole.cwl"}}
    wf = {"cwlVersion": doc["cwlVersion"], "class": "Workflow", "inputs": [], "outputs": [],
          "steps": [dict(step, id="s")] if case["how"] == "list" else {"s": step}}
    a = load(doc, case["mode"], doc_uri("whole.cwl"))
    b = load(wf, case["mode"], doc_uri("sub/wrap.cwl")).steps[0].run
    da, db = normal(dump(a)), normal(dump(b))
    if "id" not in doc:
        del da["id"], db["id"]     # standing for the file, or blank
    d = next(diff(da, db), None)
    if d:
        raise Violation("an imported process differs from the file's: %s" % d)
    ctx.label(doc["cwlVersion"], doc["class"])
    if len(json.dumps(doc)) > 400:
        ctx.nontrivial()


PROPS = [
    Prop("spelling", respelled(), check_spelling, 2600, 80000),
    Prop("import", imported(), check_import, 700, 20000),
    Prop("entry", entries(), check_entry, 400, 20000),
]
