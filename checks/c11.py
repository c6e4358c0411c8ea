"""C11: stream shortcuts."""

import copy

from hypothesis import strategies as st

from lib import objects
from lib import types_model as tm
from lib.pbt import Prop, Violation
from lib.scratch import doc_uri

from schema_salad.exceptions import ValidationException

import cwl_utils.parser as cwlparser
import cwl_utils.parser.utils as pu
from cwl_utils.expression import do_eval

RULE = ("A case is a process of one version with generated parameters, stream shortcuts and stream fields; non-trivial when a "
        "shortcut is used.")
ASSUMPTIONS = ["the reference in stdin is evaluated with cwl_utils.expression, which C05 and C06 check"]

NAMES = ["a", "b", "out", "in_1", "x-y", "file.txt", "with space", "9z", "it's", "é"]
STREAM = ["out.txt", "sub/log", "$(inputs.a)", "a b", "out*.txt", "x", "$(1+1)_${return 2;}", "-"]


@st.composite
def cases(draw):
    v = draw(st.sampled_from(tm.VERSIONS))
    kind = draw(st.sampled_from(["CommandLineTool"] * 12 + ["ExpressionTool", "Workflow"]))
    ins, outs = [], []
    for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3)):
        t = draw(tm.types(1))
        p = {"id": n, "type": tm.yaml_type(t)}
        if kind == "CommandLineTool" and v != "v1.0" and draw(st.integers(0, 3)) == 3:
            p["type"] = "stdin"
        if kind == "CommandLineTool" and draw(st.integers(0, 4)) == 4:
            p["inputBinding"] = {"position": draw(st.integers(0, 3))}
        if draw(st.integers(0, 4)) == 4:
            p["doc"] = "words"
        ins.append(p)
    for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4)):
        p = {"id": n, "type": tm.yaml_type(draw(tm.types(1)))}
        if kind == "CommandLineTool":
            p["type"] = draw(st.sampled_from([p["type"], "stdout", "stdout", "stderr", "File"]))
            if draw(st.integers(0, 5 if p["type"] not in ("stdout", "stderr") else 11)) == 0:
                p["outputBinding"] = {"glob": draw(st.sampled_from(["*.txt", "g"]))}
            if draw(st.integers(0, 4)) == 4 and p["type"] in ("stdout", "stderr", "File"):
                p["format"] = "http://example.com/f"
        outs.append(p)
    d = {"cwlVersion": v, "class": kind, "inputs": ins, "outputs": outs}
    if draw(st.booleans()):
        d["id"] = draw(st.sampled_from(["tool", "t-1"]))
    if kind == "CommandLineTool":
        d["baseCommand"] = draw(st.sampled_from(["cat", ["echo", "hi"]]))
        for f in ("stdout", "stderr"):
            if draw(st.integers(0, 2)) == 2:
                d[f] = draw(st.sampled_from(STREAM))
        if draw(st.integers(0, 6)) == 6:
            d["stdin"] = draw(st.sampled_from(STREAM))
        if draw(st.integers(0, 3)) == 3:
            d["arguments"] = ["x", {"valueFrom": "$(inputs)"}]
    elif kind == "ExpressionTool":
        d["expression"] = "$({})"
    else:
        d["steps"] = []
    return {"doc": d}


def load(doc):
    return cwlparser.load_document_by_yaml(copy.deepcopy(doc), doc_uri())


def names(params):
    return [p["id"] for p in params]


def check(case, ctx):
    doc = case["doc"]
    v, clt = doc["cwlVersion"], doc["class"] == "CommandLineTool"
    objects.deterministic_uuid()
    tool = load(doc)
    before = objects.dump(tool)
    used = {t: [i for i, p in enumerate(doc["outputs"] if t != "stdin" else doc["inputs"]) if clt and p["type"] == t] for t in ("stdout", "stderr", "stdin")}
    bad = [doc["outputs"][i]["id"] for t in ("stdout", "stderr") for i in used[t] if "outputBinding" in doc["outputs"][i]]
    bad += [doc["inputs"][i]["id"] for i in used["stdin"] if "inputBinding" in doc["inputs"][i]]
    if used["stdin"] and "stdin" in doc:
        bad.append("stdin given twice")
    if len(used["stdin"]) > 1:
        bad.append("two inputs of type stdin")
    direct = tm.vutils(v).convert_stdstreams_to_files
    for convert in [pu.convert_stdstreams_to_files] + ([direct] if clt else []):
        objects.deterministic_uuid()
        tool = load(doc)
        try:
            convert(tool)
        except ValidationException as e:
            if not bad:
                raise Violation("conversion refused: %s" % e) from e
            ctx.label("refused")
            ctx.nontrivial()
            continue
        if bad:
            raise Violation("contradictory use of a stream shortcut accepted: %s" % bad)
        after = objects.dump(tool)
        want = copy.deepcopy(before)
        for t in ("stdout", "stderr"):
            field = getattr(tool, t, None) if clt else None
            if used[t]:
                if doc.get(t) is not None:
                    if field != doc[t]:
                        raise Violation("%s was %r and is now %r" % (t, doc[t], field))
                elif not (isinstance(field, str) and field and not set(field) & set("/*?[]$\\ ")):
                    raise Violation("generated %s name %r is not a plain file name" % (t, field))
                want[t] = field
                for i in used[t]:
                    b = tool.outputs[i].outputBinding
                    if tool.outputs[i].type_ != "File" or b is None or b.glob != field:
                        raise Violation("output %s of type %s became type %r with glob %r, %s is %r" % (doc["outputs"][i]["id"], t, tool.outputs[i].type_, getattr(b, "glob", None), t, field))
                    others = {k: x for k, x in objects.dump(b).items() if k not in ("@", "glob", "extension_fields") and x is not None}
                    if others:
                        raise Violation("unexpected output binding fields %s" % others)
                    want["outputs"][i]["type_"] = "File"
                    want["outputs"][i]["outputBinding"] = objects.dump(b)
        if used["stdout"] and used["stderr"] and "stdout" not in doc and "stderr" not in doc and tool.stdout == tool.stderr:
            raise Violation("stdout and stderr are written to one file %r" % tool.stdout)
        for i in used["stdin"]:
            want["inputs"][i]["type_"] = "File"
            want["stdin"] = str(tool.stdin)
            got = do_eval(tool.stdin, {p["id"]: {"class": "File", "path": "/p/" + p["id"]} for p in doc["inputs"]}, [], None, None, {}) if isinstance(tool.stdin, str) else None
            if got != "/p/" + doc["inputs"][i]["id"]:
                raise Violation("stdin is %r, which gives %r; the input is %r" % (tool.stdin, got, doc["inputs"][i]["id"]))
        if after != want:
            diff = [k for k in want if after.get(k) != want[k]] + [k for k in after if k not in want]
            raise Violation("conversion also changed %s: %s" % (diff, [(want.get(k), after.get(k)) for k in diff][:2]))
        again = copy.deepcopy(tool)
        convert(again)
        if objects.dump(again) != after:
            raise Violation("converting a converted tool changes it")
        if used["stdout"] or used["stderr"] or used["stdin"]:
            ctx.nontrivial()
            # the same every time, in another process too: blank node ids must not matter
            objects.real_uuid()
            t2 = load(doc)
            convert(t2)
            if (t2.stdout, t2.stderr, t2.stdin) != (tool.stdout, tool.stderr, tool.stdin):
                raise Violation("streams of one tool are called %r and, loaded again, %r" % ((tool.stdout, tool.stderr), (t2.stdout, t2.stderr)))
            objects.deterministic_uuid()
            saved = cwlparser.save(tool)
            back = cwlparser.load_document_by_yaml(saved, doc_uri())
            if [p.type_ for p in back.outputs if isinstance(p.type_, str)] != [p.type_ for p in tool.outputs if isinstance(p.type_, str)] or back.stdout != tool.stdout:
                raise Violation("the converted tool does not survive saving")
        for t in used:
            if used[t]:
                ctx.label("%s %s" % (t, "named" if t in doc else "unnamed"))
    ctx.label("version:" + v, doc["class"])


PROPS = [Prop("convert", cases(), check, quick=4000, thorough=100000)]
