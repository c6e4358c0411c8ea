"""C15: JSON Schema for the inputs of a process."""

import contextlib
import http.server
import io
import json
import os
import shutil
import threading
import urllib.parse
from pathlib import Path

from hypothesis import strategies as st
from jsonschema import Draft7Validator

from lib import packgen
from lib.pbt import Prop, Violation

from checks.c13 import write

import cwl_utils.parser as cwlparser
from cwl_utils import inputs_schema_gen

RULE = ("A case is a generated process written in one or more files, and job objects that are valid, lack an input or hold values of other types; "
        "non-trivial when a job with an array, record, enum, union or File is decided.")
ASSUMPTIONS = ["a job object is valid when every input without default and optional type has a value, and the values are of the declared types: null for a "
               "missing value, any non-null value for Any, an object with the right class for File and Directory",
               "not decided, as CWL leaves it open or the schema cannot say it: fields that a record does not declare, whole floats for an int, integers beyond the range of the type",
               "types do not contain themselves"]

NAMES = ["n0", "fooBar", "foobar", "foo-bar", "foo_bar", "file", "Directory", "any", "fastq-list-row", "a.b", "x y", "InputArraySchema", "1st", "FooBar", "é"]
VALUES = [None, True, False, 0, 7, -1, 1.5, -0.25, "", "text", "x", "y", "1", [], [1], ["x"], [None], [[1]], [["x"]], {}, {"f": 1}, {"f": "x", "g": 1.5}, {"class": "File", "location": "a.txt"},
          {"class": "File", "contents": "x", "basename": "b"}, {"class": "Directory", "location": "d"}, {"class": "Directory", "listing": [], "basename": "d"}, {"class": "other"}, [{"class": "File", "path": "p"}], 2**40]


def conforms(m, t, v):
    """True, False, or None where that is left open."""
    if isinstance(t, list):
        rs = [conforms(m, x, v) for x in t]
        return True if True in rs else None if None in rs else False
    if isinstance(t, dict):
        if "ref" in t:
            return conforms(m, m["types"][t["ref"]], v)
        if "array" in t:
            if not isinstance(v, list):
                return False
            rs = [conforms(m, t["array"], x) for x in v]
            return False if False in rs else None if None in rs else True
        if "enum" in t:
            return isinstance(v, str) and v in t["enum"]
        if not isinstance(v, dict):
            return False
        rs = [conforms(m, ft, v.get(n)) for n, ft in t["record"]]
        if False in rs:
            return False
        return None if None in rs or set(v) - {n for n, _ in t["record"]} else True
    if t == "null":
        return v is None
    if t == "Any":
        return v is not None
    if t == "boolean":
        return isinstance(v, bool)
    if t in ("string",):
        return isinstance(v, str)
    if t in ("int", "long"):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return False
        if isinstance(v, float):
            return None if v == int(v) else False
        return True if abs(v) < 2 ** (31 if t == "int" else 63) else None
    if t in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t in ("File", "Directory"):
        return isinstance(v, dict) and v.get("class") == t
    raise AssertionError(t)


def sample(draw, m, t):
    """A value of the type."""
    if isinstance(t, list):
        return sample(draw, m, draw(st.sampled_from(t)))
    if isinstance(t, dict):
        if "ref" in t:
            return sample(draw, m, m["types"][t["ref"]])
        if "array" in t:
            return [sample(draw, m, t["array"]) for _ in range(draw(st.integers(0, 2)))]
        if "enum" in t:
            return draw(st.sampled_from(t["enum"]))
        out = {}
        for n, ft in t["record"]:
            v = sample(draw, m, ft)
            if v is not None or draw(st.booleans()):
                out[n] = v
        return out
    if t == "null":
        return None
    return draw(st.sampled_from([v for v in VALUES if conforms(m, t, v) is True]))


def positions(v, path=()):
    yield path
    if isinstance(v, dict) and "class" not in v:
        for k, x in v.items():
            yield from positions(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from positions(x, path + (i,))


def put(v, path, new):
    if not path:
        return new
    if isinstance(v, dict):
        return {k: put(x, path[1:], new) if k == path[0] else x for k, x in v.items()}
    return [put(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v)]


@st.composite
def cases(draw):
    m = draw(packgen.models(1))
    m["names"] = draw(st.permutations(NAMES))[:3]
    m["same names"] = draw(st.integers(0, 3)) == 3
    p = m["process"]
    if m["version"] == "v1.2" and draw(st.integers(0, 5)) == 5:
        for k in ("baseCommand", "arguments", "stdout", "expression"):
            p.pop(k, None)
        if p["class"] != "Workflow":
            p["class"] = "Operation"
            p["outputs"], p["requirements"], p["hints"] = [], [], []
            for i in p["inputs"]:
                i.pop("inputBinding", None)
    for i in p["inputs"]:
        k = draw(st.integers(0, 14))
        if p["class"] == "CommandLineTool" and m["version"] != "v1.0" and k == 0 and "inputBinding" not in i and not any(j["type"] == "stdin" for j in p["inputs"]) and "stdin" not in p:
            i.pop("default", None)
            i.pop("format", None)
            i["type"] = "stdin"
        elif k == 1:
            i["type"] = "null"
            i.pop("default", None)
            i.pop("format", None)
        elif k in (2, 3):
            i["type"] = draw(st.lists(st.sampled_from(["null", "int", "float", "string", "File", {"array": "int"}, {"enum": ["x"]}, {"record": [["f", "int"]]}, {"record": [["f", ["null", "int"]]]}]), min_size=1, max_size=3, unique_by=str))
            i.pop("format", None)
        elif k == 4:
            i["default"] = draw(st.sampled_from([None, False, 0, "", []]))
        if draw(st.integers(0, 6)) == 6:
            i["doc"] = ["several", "lines"]
        if draw(st.integers(0, 6)) == 6:
            i["label"] = "a label"
    jobs = []
    for _ in range(draw(st.integers(1, 4))):
        job = {}
        for i in p["inputs"]:
            t = "File" if i["type"] == "stdin" else i["type"]
            v = sample(draw, m, t)
            if (v is None and draw(st.booleans())) or draw(st.integers(0, 7)) == 7:
                continue
            job[i["id"]] = v
        if job and draw(st.booleans()):
            n = draw(st.sampled_from(sorted(job)))
            job[n] = put(job[n], draw(st.sampled_from(list(positions(job[n])))), draw(st.sampled_from(VALUES)))
        if draw(st.integers(0, 5)) == 5:
            job["unrelated"] = 1
        jobs.append(job)
    return {"model": m, "jobs": jobs, "choices": draw(packgen.choice_lists(40)), "style": draw(st.sampled_from(["yaml", "json"])),
            "entry": draw(st.sampled_from(["api", "api", "api", "api", "graph", "absolute", "relative", "uri", "stdout", "http", "built"])),
            "absent": draw(st.integers(0, 15)) == 15}


def valid(m, job):
    """(verdict, whether an interesting type was decided)"""
    verdict = True
    for i in m["process"]["inputs"]:
        t = "File" if i["type"] == "stdin" else i["type"]
        v = job.get(i["id"])
        r = conforms(m, t, v)
        if v is None and i.get("default") is not None:
            r = True
        if r is False:
            return False
        if r is None:
            verdict = None
    return verdict


def required(m, i):
    return conforms(m, "File" if i["type"] == "stdin" else i["type"], None) is False and i.get("default") is None


def refs(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref" and isinstance(v, str):
                yield v
            else:
                yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


SERVER = {}


def serve():
    root = os.environ["TMPDIR"]

    class H(http.server.SimpleHTTPRequestHandler):
        def __init__(self, *a):
            super().__init__(*a, directory=root)

        def log_message(self, *a):
            pass

        def end_headers(self):
            self.send_header("Cache-Control", "no-store")
            super().end_headers()

    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    SERVER.update(root=root, port=s.server_port)


def argument(entry, root):
    if entry == "http":
        return "http://127.0.0.1:%d/%s" % (SERVER["port"], urllib.parse.quote(os.path.relpath(root, SERVER["root"])))
    return {"absolute": str(root), "relative": os.path.relpath(root), "uri": root.as_uri(), "stdout": root.as_uri(), "graph": root.as_uri() + "#main"}[entry]


def check_absent(case, base, root, ctx):
    """A document that is not there, or an output that cannot be: an error, and no schema."""
    entry = case["entry"]
    dest = os.path.join(base, "schema.json")
    try:
        args = inputs_schema_gen.parse_args([argument(entry, root.with_name("absent.cwl")), "-o", dest])
        code = inputs_schema_gen.run(args)
        args.output.close()
    except Exception:
        code = 1
    if not code or os.path.getsize(dest):
        raise Violation("a document that does not exist: exit code %r, output %r" % (code, open(dest).read()[:200]))
    ctx.label("absent:" + entry)


def generate(case, base, root):
    entry = case["entry"]
    try:
        if entry == "api":
            return inputs_schema_gen.cwl_to_jsonschema(cwlparser.load_document_by_uri(root))
        if entry == "built":
            # as an object that was not loaded: all there is is in the object
            obj = cwlparser.load_document_by_uri(root)
            obj.loadingOptions = type(obj.loadingOptions)()
            return inputs_schema_gen.cwl_to_jsonschema(obj)
        arg = argument(entry, root)
        if entry == "stdout":
            args = inputs_schema_gen.parse_args([arg])
            out = io.StringIO()
            args.output = out
            out.name = "<stdout>"
            code = inputs_schema_gen.run(args)
            text = out.getvalue()
        else:
            dest = os.path.join(base, "schema.json")
            args = inputs_schema_gen.parse_args([arg, "-o", dest])
            code = inputs_schema_gen.run(args)
            args.output.close()
            text = open(dest).read()
        if code:
            raise Violation("exit code %r" % code)
        return json.loads(text)
    except Violation:
        raise
    except Exception as e:
        try:
            cwlparser.load_document_by_uri(root)
        except Exception as e2:
            raise Violation("generator error: %s" % e2) from e2
        raise Violation("no schema is generated: %s: %s" % (type(e).__name__, e)) from e


def check(case, ctx):
    base = os.path.join(os.environ["TMPDIR"], "schema")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    m = case["model"]
    sp = packgen.Split(m, case["choices"]).run()
    if case["entry"] == "graph" and sp.root in sp.type_files.values():
        case = dict(case, entry="uri")  # the names of the types would change
    if case["entry"] == "graph":
        # one of two processes of a graph
        doc = dict(sp.files[sp.root])
        sp.files[sp.root] = {"cwlVersion": doc.pop("cwlVersion"), "$graph": [{"class": "ExpressionTool", "id": "other", "inputs": {"unrelated": "int"}, "outputs": [], "expression": "$({})",
                                                                              "requirements": {"InlineJavascriptRequirement": {}}}, dict(doc, id="main")]}
    write(sp, base, case["style"])
    root = Path(base, sp.root)
    if case["entry"] == "http" and any(b"file:" in p.read_bytes() for p in Path(base).rglob("*") if p.is_file()):
        case = dict(case, entry="uri")  # remote documents cannot refer to local ones
    with contextlib.redirect_stderr(io.StringIO()):
        if case["absent"] and case["entry"] not in ("api", "built"):
            check_absent(case, base, root, ctx)
        schema = generate(case, base, root)
    try:
        text = json.dumps(schema)
        Draft7Validator.check_schema(schema)
    except Exception as e:
        raise Violation("not a valid schema: %s" % str(e)[:300]) from e
    for r in refs(schema):
        x = schema
        for seg in r[2:].split("/"):
            x = x.get(seg.replace("~1", "/").replace("~0", "~")) if isinstance(x, dict) else None
        if not r.startswith("#/") or x is None:
            raise Violation("the reference %s is not defined" % r)
    need = sorted(i["id"] for i in m["process"]["inputs"] if required(m, i))
    if sorted(schema.get("required", [])) != need:
        raise Violation("required: expected %s, got %s" % (need, schema.get("required")))
    if set(schema["properties"]) != {i["id"] for i in m["process"]["inputs"]}:
        raise Violation("properties: %s" % sorted(schema["properties"]))
    validator = Draft7Validator(schema)
    for job in case["jobs"]:
        want = valid(m, job)
        if want is None:
            continue
        try:
            errors = list(validator.iter_errors(job))
        except Exception as e:
            raise Violation("validation fails: %s: %s" % (type(e).__name__, e)) from e
        if want and errors:
            raise Violation("a valid job is refused: %s: %s\n%s" % (json.dumps(job), errors[0].message[:300], text[:1500]))
        if not want and not errors:
            raise Violation("an invalid job is accepted: %s\n%s" % (json.dumps(job), text[:1500]))
        if any(isinstance(v, (dict, list)) for v in job.values()):
            ctx.nontrivial()
        ctx.label("job:" + ("valid" if want else "invalid"))
    ctx.label("version:" + m["version"], "class:" + m["process"]["class"], "entry:" + case["entry"], *(x for x in sorted(sp.labels) if "type" in x or "schema" in x))


PROPS = [Prop("schema", cases(), check, quick=3000, thorough=80000, setup=serve)]
