"""C13: packing."""

import contextlib
import io
import json
import os
import shutil
from pathlib import Path

from hypothesis import strategies as st
from ruamel.yaml import YAML

from lib import objects, packgen
from lib.pbt import Prop, Violation

import cwl_utils.parser as cwlparser
from cwl_utils import pack_cli
from cwl_utils.pack import pack

RULE = ("A case is a generated process tree, a list of choices that splits it over files, and a way to name the root; non-trivial when at "
        "least one import, include, external run or schema definition is in it.")
ASSUMPTIONS = ["the meaning of a packed document is what cwl_utils.parser loads from it, which C01 to C04 check; types are compared without "
               "their names, which packing may change",
               "processes of one tree have the same cwlVersion; values of File defaults are not relative references",
               "imports of lists inside lists, types that contain themselves, and run references into $graph documents are not generated"]


@st.composite
def cases(draw):
    return {"model": draw(packgen.models()), "choices": draw(packgen.choice_lists()), "style": draw(st.sampled_from(["yaml", "json"])),
            "entry": draw(st.sampled_from(["absolute", "relative", "uri"]))}


def write(sp, base, style):
    root = Path(base).as_uri()
    for rel, obj in sp.files.items():
        f = os.path.join(base, rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if rel in sp.texts:
            text = sp.texts[rel]
        elif style == "json":
            text = json.dumps(packgen.bind(obj, root))
        else:
            y = YAML(typ="safe", pure=True)
            y.width = 1000
            y.sort_base_mapping_type_on_output = False
            s = io.StringIO()
            y.dump(packgen.bind(obj, root), s)
            text = s.getvalue().replace("'2020-01-01'", "2020-01-01")
        with open(f, "w", newline="") as h:
            h.write(text)


def tree(base):
    return {os.path.relpath(os.path.join(d, f), base): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(base) for f in fs}


def references(x, path=()):
    """What packing must have removed."""
    if isinstance(x, dict):
        for k in ("$import", "$include"):
            if k in x:
                yield path, x
        if x.get("class") == "SchemaDefRequirement":
            yield path, x
        if isinstance(x.get("run"), str) and "in" in x:
            yield path, x["run"]
        for k, v in x.items():
            yield from references(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from references(v, path + (i,))


def nameless(x):
    if isinstance(x, dict):
        cls = str(x.get("@"))
        out = {k: nameless(v) for k, v in x.items() if not (k == "name" and ("Schema" in cls)) and k not in ("cwlVersion", "extension_fields")}
        if "RecordField" in cls or (cls.endswith("RecordField") and "name" in x):
            out["name"] = str(x["name"]).rsplit("/", 1)[-1].rsplit("#", 1)[-1]
        if cls.endswith("WorkflowStepOutput"):
            return x["id"]
        if "EnumSchema" in cls:
            out["symbols"] = [s.rsplit("/", 1)[-1].rsplit("#", 1)[-1] for s in x["symbols"]]
        if str(out.get("id")).startswith("_:"):
            del out["id"]
        for k in ("requirements", "hints"):
            if isinstance(out.get(k), list):
                out[k] = sorted(out[k], key=lambda r: json.dumps(r, sort_keys=True))
            if out.get(k) == []:
                out[k] = None
        return out
    if isinstance(x, list):
        return [nameless(v) for v in x]
    return x


def meaning(doc, uri):
    objects.deterministic_uuid()
    return nameless(objects.dump(cwlparser.load_document_by_yaml(json.loads(json.dumps(doc)), uri)))


def first_difference(a, b, path=""):
    if type(a) is not type(b) or not isinstance(a, (dict, list)):
        return None if a == b else "%s: expected %r, got %r" % (path, a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: expected %d items, got %d" % (path, len(a), len(b))
        pairs = [(i, a[i], b[i]) for i in range(len(a))]
    else:
        if set(a) != set(b):
            return "%s: fields %s" % (path, set(a) ^ set(b))
        pairs = [(k, a[k], b[k]) for k in a]
    return next((d for k, x, y in pairs for d in [first_difference(x, y, "%s/%s" % (path, k))] if d), None)


def names(x, out):
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "array") and isinstance(x.get("name"), str):
            out.append(x["name"])
        for v in x.values():
            names(v, out)
    elif isinstance(x, list):
        for v in x:
            names(v, out)
    return out


def quiet_pack(path):
    with contextlib.redirect_stderr(io.StringIO()):
        return pack(path)


def check(case, ctx):
    base = os.path.join(os.environ["TMPDIR"], "pack")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    m = case["model"]
    sp = packgen.Split(m, case["choices"]).run()
    write(sp, base, case["style"])
    before = tree(base)
    root = Path(base, sp.root)
    old = os.getcwd()
    os.chdir(base)
    try:
        arg = {"absolute": str(root), "relative": sp.root, "uri": root.as_uri()}[case["entry"]]
        try:
            packed = quiet_pack(arg)
        except (Exception, SystemExit) as e:
            try:
                cwlparser.load_document_by_uri(root)
            except Exception as e2:
                raise Violation("generator error: the split document does not load: %s" % e2) from e2
            raise Violation("packing fails: %s: %s" % (type(e).__name__, e)) from e
        if tree(base) != before:
            raise Violation("packing changed the source files")
        left = list(references(packed))
        if left:
            raise Violation("left in the packed document: %s" % (left[:2],))
        try:
            text = json.dumps(packed)
        except TypeError as e:
            raise Violation("the packed document is not JSON: %s" % e) from e
        want = packgen.render(m)
        with open("packed.json", "w") as f:
            f.write(text)
        uri = Path(base, "packed.json").as_uri()
        try:
            got = meaning(packed, uri)
        except Exception as e:
            raise Violation("the packed document does not load: %s\n%s" % (e, text[:3000])) from e
        diff = first_difference(meaning(want, uri), got)
        if diff:
            raise Violation("packing changed the process: " + diff)
        ns = names(packed, [])
        if len(set(ns)) != len(ns):
            raise Violation("two types of the packed document are called the same: %s" % ns)
        again = quiet_pack(arg)
        if json.dumps(again) != text:
            raise Violation("packing twice gives different documents")
        twice = quiet_pack(os.path.join(base, "packed.json"))
        if twice != packed:
            raise Violation("packing the packed document changes it: %s" % first_difference(packed, twice))
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            code = pack_cli.run(pack_cli.arg_parser().parse_args([arg, "--indent", "2"]))
            code2 = pack_cli.run(pack_cli.arg_parser().parse_args([arg, "-o", "cli.json"]))
        if code or code2 or json.loads(out.getvalue()) != packed or json.load(open("cli.json")) != packed:
            raise Violation("cwl-utils pack prints something else than pack returns")
    finally:
        os.chdir(old)
    if len(sp.files) > 1 or sp.labels & {"schema definitions"}:
        ctx.nontrivial()
    ctx.label("version:" + m["version"], "files:%d" % min(len(sp.files), 6), *sorted(sp.labels))


PROPS = [Prop("pack", cases(), check, quick=2500, thorough=60000)]
