"""C10: inferred types of sources, step inputs and step outputs."""

import os

from hypothesis import strategies as st

from lib import objects
from lib import types_model as tm
from lib import wfgen
from lib.pbt import Prop, Violation

from schema_salad.exceptions import ValidationException

import cwl_utils.parser as cwlparser
import cwl_utils.parser.utils as pu
from cwl_utils.errors import WorkflowException

RULE = ("A case is a workflow of one version and a list of queries (one source or several, with a linkMerge and a pickValue, "
        "asked of the workflow or of a step's process with the workflow as parent; existing or not); every step input and step "
        "output is also asked for. Non-trivial when some query has several sources, a merge, a pick, a scattered source or "
        "an unknown source.")
ASSUMPTIONS = ["the null that pickValue removes may be left in the type",
               "a merge_flattened type may be given as a union of arrays or as an array of a union"]


def nested_union(t):
    """A list among the members of a union, which is not a CWL type."""
    if isinstance(t, list):
        return any(isinstance(x, list) or nested_union(x) for x in t)
    return hasattr(t, "items") and nested_union(t.items)


@st.composite
def cases(draw):
    m = draw(wfgen.workflows(clean=0.3))
    m["whole_graph"] = draw(st.integers(0, 3)) == 3
    avail = [["", i["name"]] for i in m["inputs"]] + [[s["name"], o["name"]] for s in m["steps"] for o in s["outs"]]
    qs = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from([1, 1, 2, 2, 3]))
        src = [draw(st.sampled_from(avail)) for _ in range(k)]
        bad = None
        if draw(st.integers(0, 5)) == 5:
            bad = draw(st.sampled_from([["", "nosuch"], ["nostep", "out"], ["s1", "nosuch"], ["s1/x", "b"]]))
            src.insert(draw(st.integers(0, len(src))), bad)
            if draw(st.booleans()):
                src = [bad]
        qs.append({"src": src, "aslist": draw(st.booleans()) or len(src) > 1,
                   "linkMerge": draw(st.sampled_from([None, None, "merge_nested", "merge_flattened"])),
                   "pickValue": draw(st.sampled_from([None, None, "first_non_null", "the_only_non_null", "all_non_null"])) if m["version"] == "v1.2" else None,
                   "via": draw(st.integers(-1, max(0, len(m["steps"]) - 1))) if m["steps"] else -1, "frag": draw(st.integers(0, 5)) == 5})
    m["queries"] = qs
    return m


def flat_items(t):
    """Both ways of writing a flattened type -> one."""
    ms = []
    for x in tm.members(t):
        ms += tm.members(x["array"]) if isinstance(x, dict) and "array" in x else [x]
    return tm.norm(ms)


def no_null(t):
    ms = [x for x in tm.members(t) if x != "null"]
    return tm.norm(ms) if ms else "null"


def want_type(m, q):
    ts = [wfgen.src_type(m, x) for x in q["src"]]
    u = tm.norm(ts) if len(ts) > 1 else tm.norm(ts[0])
    lm, pick = q["linkMerge"], q["pickValue"]
    if lm == "merge_nested":
        t = {"array": u}
    elif lm == "merge_flattened":
        t = {"array": flat_items(u)}
    elif len(ts) > 1:
        t = {"array": u}
    else:
        t = u
    if pick in ("first_non_null", "the_only_non_null") and isinstance(t, dict) and "array" in t:
        t = t["array"]
    return tm.norm(t)


def agree(got, want, q):
    got, want = tm.norm(got), tm.norm(want)
    if got == want:
        return True
    if q["linkMerge"] == "merge_flattened" and q["pickValue"] not in ("first_non_null", "the_only_non_null"):
        arrays = all(isinstance(x, dict) and "array" in x for x in tm.members(got))
        if arrays and flat_items(got) == flat_items(want):
            return True
    if q["pickValue"] in ("first_non_null", "the_only_non_null") and no_null(got) == no_null(want):
        return True
    if q["pickValue"] == "all_non_null" and all(isinstance(x, dict) and "array" in x for x in tm.members(got) + tm.members(want)):
        return no_null(flat_items(got)) == no_null(flat_items(want))
    return False


def clashes(m, s, q):
    """v1.0 has no scope for an inline process: its input and the step output of the same name have one id."""
    return m["version"] == "v1.0" and s["mode"].startswith("inline") and any(x[0] == s["name"] for x in q["src"])


def check(case, ctx):
    root = os.path.join(os.environ["TMPDIR"], "c10")
    v = case["version"]
    uri = wfgen.render(case, root, case["perm"], whole_graph=case["whole_graph"])
    wf = cwlparser.load_document_by_uri(uri)
    before = objects.dump(wf)
    base = wf.id if "#" in wf.id else wf.id + "#"
    sep = "/" if "#" in wf.id and not wf.id.endswith("#") else ""

    def full(x):
        return base + sep + wfgen.sref(x)

    known = {i.id for i in wf.inputs}
    for i in case["inputs"]:
        if full(["", i["name"]]) not in known:
            raise Violation("harness: %s not in %s" % (full(["", i["name"]]), known))
    steps = {s.id.split("#")[-1].split("/")[-1]: s for s in wf.steps}
    for s in case["steps"]:
        step = steps[s["name"]]
        ins = {p.id.split("/")[-1]: p for p in step.in_}
        for p in s["ins"]:
            got = tm.read(pu.type_for_step_input(step, ins[p["name"]], v))
            want = wfgen.sink_type_in(s, p)
            if tm.norm(got) != tm.norm(want):
                raise Violation("type_for_step_input(%s/%s) is %r, expected %r" % (s["name"], p["name"], got, want))
        for o in s["outs"]:
            got = tm.read(pu.type_for_step_output(step, full([s["name"], o["name"]]), v))
            want = wfgen.src_type(case, [s["name"], o["name"]])
            if tm.norm(got) != tm.norm(want):
                raise Violation("type_for_step_output(%s/%s) is %r, expected %r" % (s["name"], o["name"], got, want))
        try:
            t = pu.type_for_step_output(step, full([s["name"], "nosuch"]), v)
        except (ValidationException, WorkflowException):
            pass
        else:
            raise Violation("type_for_step_output of an unknown output of %s gave %r" % (s["name"], tm.read(t)))
    names = {(i["name"],) for i in case["inputs"]} | {(s["name"], o["name"]) for s in case["steps"] for o in s["outs"]}
    special = False
    for q in case["queries"]:
        srcs = [full(x) for x in q["src"]]
        if q["frag"]:
            srcs = [s.split("#")[-1] for s in srcs]
        arg = srcs if q["aslist"] or len(srcs) > 1 else srcs[0]
        process, parent, how = wf, None, "the workflow"
        if q["via"] >= 0 and not q["frag"]:
            s = case["steps"][q["via"]]
            if not clashes(case, s, q):
                process, parent, how = pu.load_step(steps[s["name"]]), wf, "the process of step %s (%s) with the workflow as parent" % (s["name"], s["mode"])
        exists = all((x[1],) in names if x[0] == "" else (x[0], x[1]) in names for x in q["src"])
        what = "type_for_source(%s, %s, linkMerge=%s, pickValue=%s)" % (how, q["src"], q["linkMerge"], q["pickValue"])
        try:
            r = pu.type_for_source(process, v, arg, parent, q["linkMerge"], q["pickValue"])
        except (WorkflowException, ValidationException) as e:
            if exists:
                raise Violation("%s raised %s" % (what, str(e)[:200])) from e
            ctx.label("unknown source refused")
            special = True
            continue
        if not exists:
            raise Violation("%s names a source that does not exist but gave %r" % (what, tm.read(r)))
        got, want = tm.read(r), want_type(case, q)
        if nested_union(r):
            raise Violation("%s has a union within a union: %r" % (what, objects.dump(r) if hasattr(r, "save") else r))
        if not agree(got, want, q):
            raise Violation("%s is %r, expected %r" % (what, got, want))
        ps = pu.param_for_source_id(process, arg, parent)
        ps = ps if isinstance(ps, list) else [ps]
        raw = [wfgen.src_type(case, x, raw=True) for x in q["src"]]
        if [tm.norm(tm.read(p.type_)) for p in ps] != [tm.norm(t) for t in raw]:
            raise Violation("param_for_source_id(%s, %s) gives parameters %s of types %r, expected %r"
                            % (how, q["src"], [p.id for p in ps], [tm.read(p.type_) for p in ps], raw))
        if len(srcs) > 1 or q["linkMerge"] or q["pickValue"] or any(x[0] and wfgen.scatter_depth(wfgen.step_of(case, x)) for x in q["src"]):
            special = True
        ctx.label("sources:%d" % len(srcs), "merge:%s" % q["linkMerge"], "pick:%s" % q["pickValue"], "parent" if parent else "workflow",
                  *["scattered:%s" % wfgen.step_of(case, x)["scatterMethod"] for x in q["src"] if x[0] and wfgen.scatter_depth(wfgen.step_of(case, x))])
    if objects.dump(wf) != before:
        raise Violation("asking for types changed the workflow")
    ctx.label("version:" + v)
    if special:
        ctx.nontrivial()


PROPS = [Prop("types", cases(), check, quick=3200, thorough=40000)]
