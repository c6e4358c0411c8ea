"""Generated workflows with a known link structure, and the reference answer for every type in them.

The model is a JSON value; `render` writes it as CWL files of any version; the reference functions answer from the model only.
"""
import json
import os
import shutil

from hypothesis import strategies as st

from lib import types_model as tm

PNAMES = ["a", "ab", "a2", "b", "x", "in1", "in10", "out", "run", "file.txt", "res-1"]
SNAMES = ["s1", "s2", "s10", "a1", "step.one", "a"]
MODES = ["inline", "inline", "inline_id", "file", "file_id", "subdir", "lib"]


def src_type(m, src, raw=False):
    """Type of a source: ["in", name] or [step, out], scatter applied."""
    if src[0] == "":
        return next(i["type"] for i in m["inputs"] if i["name"] == src[1])
    s = next(s for s in m["steps"] if s["name"] == src[0])
    t = next(o["type"] for o in s["outs"] if o["name"] == src[1])
    if t in ("stdout", "stderr"):
        t = "File"
    if raw:
        return t
    return wrap_out(s, t)


def scatter_depth(s):
    if not s.get("scatter"):
        return 0
    return len(s["scatter"]) if s.get("scatterMethod") == "nested_crossproduct" else 1


def wrap_out(s, t):
    for _ in range(scatter_depth(s)):
        t = {"array": t}
    return t


def step_of(m, src):
    return next((s for s in m["steps"] if s["name"] == src[0]), None)


def sink_type_in(s, p):
    t = p["type"]
    if p["valueFrom"] is not None:
        return "Any"
    return {"array": t} if p["name"] in (s.get("scatter") or []) else t


def with_null(t):
    return t if "null" in tm.members(t) else ["null"] + tm.members(t)


def links(m):
    """Every sink as (kind, step or None, parameter, sink type, sources)."""
    for s in m["steps"]:
        for p in s["ins"]:
            yield "step", s, p, sink_type_in(s, p), p["sources"]
    for o in m["outputs"]:
        yield "out", None, o, o["type"], o["sources"]


def expected(m):
    """-> (exceptions, warnings that must be there, warnings that may be there, required parameters missing)."""
    exc, must, may, missing = [], [], [], []
    for kind, s, p, sink, srcs in links(m):
        vf = p.get("valueFrom")
        if kind == "step" and not srcs and vf is None and p.get("default") is None and p.get("tool_default") is None \
                and "null" not in tm.members(sink):
            missing.append(p["name"])
        lm = p["linkMerge"] or ("merge_nested" if len(srcs) > 1 else None)
        pv = p.get("pickValue")
        if pv in ("first_non_null", "the_only_non_null"):
            lm = None
        for x in srcs:
            t = src_type(m, x)
            st_ = step_of(m, x) if x[0] else None
            cond = bool(st_ and st_.get("when"))
            pair = (x[1], p["name"])
            soft = bool(vf) or pv is not None or bool(p.get("default") is not None or p.get("tool_default") is not None)
            if x[0] == "" and next(i for i in m["inputs"] if i["name"] == x[1]).get("default") is not None:
                soft = True
            if cond and (scatter_depth(st_) or len(srcs) > 1 or pv is not None):
                soft = True
            base = t
            if cond and pv is None:
                t = with_null(t)
            if st_ and st_.get("loop") == "all":
                t = {"array": t}
            if p["linkMerge"] == "merge_flattened" and pv in ("first_non_null", "the_only_non_null"):
                t = [y for f in tm.members(tm.flatten(t)) for y in tm.members(f["array"])]
            v = tm.verdict(t, sink, lm, vf)
            if v == "exception":
                exc.append(pair)
                if cond:
                    may.append(pair)
            elif v == "warning":
                (may if soft else must).append(pair)
                if cond:
                    may.append(pair)
            elif cond:
                may.append(pair)
            if pv is not None:
                may.append(pair)
            if cond and not soft and len(srcs) == 1 and "null" not in tm.members(sink) and "Any" not in tm.members(sink):
                if v == "pass":
                    must.append(pair)
            del base
    return exc, must, may, missing


def declared(any_ok):
    t = tm.types(1, any_ok)
    union = st.lists(t, min_size=2, max_size=3).map(tm.norm)
    return st.one_of(tm.types(2, any_ok), t.map(lambda t: {"array": t}), union, union.map(lambda t: {"array": t}),
                     t.map(with_null))


# ---- generation ----------------------------------------------------------------------------------------------------
@st.composite
def workflows(draw, versions=tm.VERSIONS, max_steps=3, clean=0.5, any_ok=False, v12=True, missing=True):
    """clean: how likely a link is built to be compatible."""
    version = draw(st.sampled_from(list(versions)))
    tidy = draw(st.floats(0, 1)) < clean  # a whole workflow of compatible links
    m = {"version": version, "inputs": [], "steps": [], "outputs": []}
    avail = []
    for n in draw(st.lists(st.sampled_from(PNAMES), unique=True, min_size=1, max_size=4)):
        t = draw(declared(any_ok))
        m["inputs"].append({"name": n, "type": t, "default": None})
        avail.append(["", n])
    for sn in draw(st.lists(st.sampled_from(SNAMES), unique=True, max_size=max_steps)):
        s = {"name": sn, "mode": draw(st.sampled_from(MODES)), "ins": [], "outs": [], "scatter": [], "scatterMethod": None,
             "when": None, "loop": None}
        ins = draw(st.lists(st.sampled_from(draw(st.sampled_from([PNAMES, ["a", "ab", "a2"], ["in10", "in1", "in"]]))), unique=True, max_size=3))
        can_scatter = []
        for n in ins:
            p, ideal = draw(sink(m, n, avail, version, v12, allow_empty=missing))
            if p["sources"] and ideal is not None and isinstance(ideal, dict) and "array" in ideal and draw(st.booleans()):
                can_scatter.append(n)
                ideal = ideal["array"]
            elif not tidy and draw(st.integers(0, 11)) == 11:
                can_scatter.append(n)
            p["type"] = draw(target(ideal, tidy, any_ok))
            if draw(st.integers(0, 9)) == 9:
                p["valueFrom"] = draw(st.sampled_from(["$(self)", "$(self)", ""]))
            k = draw(st.integers(0, 9 if p["sources"] else 4))
            if k == 2:
                p["default"] = draw(st.sampled_from([5, 0, False, "", []]))
            p["tool_default"] = draw(st.sampled_from([7, 0, False, "", []])) if k == 1 else None
            s["ins"].append(p)
        s["scatter"] = can_scatter
        if len(can_scatter) > 1 or (can_scatter and draw(st.integers(0, 3)) == 3):
            s["scatterMethod"] = draw(st.sampled_from(["dotproduct", "nested_crossproduct", "flat_crossproduct"]))
        s["kind"] = draw(st.sampled_from(["clt", "clt", "et", "wf"]))
        for n in draw(st.lists(st.sampled_from(PNAMES), unique=True, max_size=3)):
            s["outs"].append({"name": n, "type": draw(declared(any_ok))})
        if s["kind"] == "clt":
            for o in s["outs"]:
                if draw(st.integers(0, 7)) == 7:
                    o["type"] = draw(st.sampled_from(["stdout", "stderr"]))
        if version == "v1.2" and v12:
            r = draw(st.integers(0, 5))
            if r <= 1:
                s["when"] = "$(true)"
            elif r <= 3 and not s["scatter"]:
                s["loop"] = draw(st.sampled_from(["last", "all", "all"]))
        m["steps"].append(s)
        avail = avail + [[sn, o["name"]] for o in s["outs"]]
    for n in draw(st.lists(st.sampled_from(["r0", "r1", "r2", "a"]), unique=True, max_size=3)):
        p, ideal = draw(sink(m, n, avail, version, v12))
        p["type"] = draw(target(ideal, tidy, any_ok))
        m["outputs"].append(p)
    m["perm"] = draw(st.integers(0, 5))
    return m


def eff_type(m, x, pick):
    t = src_type(m, x)
    s = step_of(m, x) if x[0] else None
    if s and s.get("when") and pick is None:
        t = with_null(t)
    if s and s.get("loop") == "all":
        t = {"array": t}
    return t


@st.composite
def sink(draw, m, n, avail, version, v12, allow_empty=False):
    p = {"name": n, "sources": [], "linkMerge": None, "pickValue": None, "valueFrom": None, "default": None, "list": False}
    if draw(st.integers(0, 15)) == 11:
        return p, None
    k = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    outs = [x for x in avail if x[0]]
    p["sources"] = [draw(st.sampled_from(outs if outs and draw(st.booleans()) else avail)) for _ in range(k)]
    p["list"] = k > 1 or draw(st.integers(0, 3)) == 3
    p["linkMerge"] = draw(st.sampled_from([None, None, "merge_nested", "merge_flattened"])) if k > 1 or draw(st.integers(0, 3)) == 3 else None
    if version == "v1.2" and v12 and draw(st.integers(0, 3)) == 3:
        p["pickValue"] = draw(st.sampled_from(["first_non_null", "the_only_non_null", "all_non_null"]))
    ts = [eff_type(m, x, p["pickValue"]) for x in p["sources"]]
    u = tm.norm(ts) if len(ts) > 1 else ts[0]
    lm = p["linkMerge"] or ("merge_nested" if k > 1 else None)
    picked = p["pickValue"] in ("first_non_null", "the_only_non_null")
    if picked and lm == "merge_nested":
        lm = None
    if lm == "merge_nested":
        u = {"array": u}
    elif lm == "merge_flattened":
        u = tm.norm([x["array"] if isinstance(x, dict) and "array" in x else x for t in ts for x in tm.members(t)])
        u = u if picked else {"array": u}
    return p, u


@st.composite
def target(draw, ideal, tidy, any_ok):
    if ideal is None:
        return draw(declared(any_ok))
    if not tidy and draw(st.integers(0, 3)) > 1:
        t = partial(draw, ideal)
        return with_null(t) if draw(st.integers(0, 3)) == 3 else t  # the null is not where it is needed
    if tidy or draw(st.integers(0, 2)) == 2:
        extra = draw(st.lists(tm.types(1, any_ok), max_size=1))
        if extra and draw(st.booleans()):
            return tm.norm(tm.members(ideal) + tm.members(extra[0]))
        return ideal
    return draw(tm.mutate(ideal, any_ok))


def partial(draw, t):
    """t without one of its alternatives, at any depth."""
    if isinstance(t, list) and len(t) > 1:
        gone = draw(st.integers(0, len(t) - 1))
        ms = [x for i, x in enumerate(t) if i != gone]
        return ms[0] if len(ms) == 1 else ms
    if isinstance(t, dict) and "array" in t:
        return {"array": partial(draw, t["array"])}
    if isinstance(t, dict) and "record" in t and t["record"]:
        return {"record": [[n, partial(draw, f)] for n, f in t["record"]]}
    if isinstance(t, dict) and "enum" in t and len(t["enum"]) > 1:
        return {"enum": t["enum"][1:]}
    return t


# ---- rendering -----------------------------------------------------------------------------------------------------
def sref(x):
    return x[1] if x[0] == "" else "%s/%s" % (x[0], x[1])


def process(kind, ins, outs, version):
    d = {"class": {"clt": "CommandLineTool", "et": "ExpressionTool", "wf": "Workflow"}[kind]}
    d["inputs"] = []
    for p in ins:
        e = {"id": p["name"], "type": tm.yaml_type(p["type"])}
        if p.get("tool_default") is not None:
            e["default"] = p["tool_default"]
        d["inputs"].append(e)
    d["outputs"] = []
    for o in outs:
        e = {"id": o["name"], "type": o["type"] if o["type"] in ("stdout", "stderr") else tm.yaml_type(o["type"])}
        d["outputs"].append(e)
    if kind == "clt":
        d["baseCommand"] = "true"
    elif kind == "et":
        d["expression"] = "$({})"
    else:
        d["steps"] = []
    return d


def link_fields(d, key, p):
    if p["sources"]:
        refs = [sref(x) for x in p["sources"]]
        d[key] = refs if p["list"] or len(refs) > 1 else refs[0]
    for f in ("linkMerge", "pickValue", "valueFrom", "default"):
        if p.get(f) is not None:
            d[f] = p[f]
    return d


def rot(xs, k):
    if not xs or not k:
        return list(xs)
    r = k % len(xs)
    ys = list(xs[r:]) + list(xs[:r])
    return ys[::-1] if k % 2 else ys


def render(m, root, perm=0, version=None, whole_graph=False):
    """Write the files under root; returns the URI to load."""
    version = version or m["version"]
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(os.path.join(root, "sub"))
    lib, main_graph = [], []
    steps = []
    for k, s in enumerate(m["steps"]):
        proc = process(s["kind"], rot(s["ins"], perm), rot(s["outs"], perm), version)
        mode = s["mode"]
        if mode.startswith("inline"):
            if mode == "inline_id":
                proc["id"] = "emb%d" % k
            run = proc
        elif mode == "lib":
            proc["id"] = "t%d" % k
            lib.append(proc)
            run = ("#t%d" if whole_graph else "lib.cwl#t%d") % k
        else:
            proc["cwlVersion"] = version
            if mode == "file_id":
                proc["id"] = "tool%d" % k
            run = "sub/t%d.cwl" % k if mode == "subdir" else "t%d.cwl" % k
            with open(os.path.join(root, run), "w") as f:
                json.dump(proc, f)
        d = {"id": s["name"], "run": run, "in": [link_fields({"id": p["name"]}, "source", p) for p in rot(s["ins"], perm)],
             "out": rot([o["name"] for o in s["outs"]], perm)}
        if s["scatter"]:
            sc = rot(s["scatter"], perm)
            d["scatter"] = sc if len(sc) > 1 or perm % 2 else sc[0]
        if s["scatterMethod"]:
            d["scatterMethod"] = s["scatterMethod"]
        if s.get("when"):
            d["when"] = s["when"]
        if s.get("loop"):
            d["requirements"] = [{"class": "http://commonwl.org/cwltool#Loop", "loopWhen": "$(false)", "loop": [], "outputMethod": s["loop"]}]
        steps.append(d)
    wf = {"class": "Workflow",
          "inputs": [dict({"id": i["name"], "type": tm.yaml_type(i["type"])}, **({"default": i["default"]} if i.get("default") is not None else {}))
                     for i in rot(m["inputs"], perm)],
          "outputs": [link_fields({"id": o["name"], "type": tm.yaml_type(o["type"])}, "outputSource", o) for o in rot(m["outputs"], perm)],
          "steps": rot(steps, perm)}
    main = os.path.join(root, "main.cwl")
    if whole_graph:
        wf["id"] = "main"
        doc = {"cwlVersion": version, "$graph": rot([wf] + lib, perm)}
    else:
        doc = dict({"cwlVersion": version}, **wf)
        if lib:
            with open(os.path.join(root, "lib.cwl"), "w") as f:
                json.dump({"cwlVersion": version, "$graph": lib}, f)
    with open(main, "w") as f:
        json.dump(doc, f)
    return "file://" + main + ("#main" if whole_graph else "")
