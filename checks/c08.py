"""C08: compatibility of a source type with a sink type."""

from hypothesis import strategies as st

from lib import types_model as tm
from lib.pbt import Prop, Violation

from schema_salad.exceptions import ValidationException

import cwl_utils.parser.utils as pu

RULE = ("A case is a source type, a sink type (independent, or derived from the source by widening, narrowing, wrapping or "
        "changing a part), a linkMerge, a valueFrom, a version and the schema classes of both ends; non-trivial when a "
        "constructed type (array, record, enum, union) is involved and the answer is not given by Any or by valueFrom.")
ASSUMPTIONS = ["unions are flat lists, as in CWL documents", "Any is compatible with everything (documented)"]


def no_lone_null(t):
    """A union of null alone is not written by anyone; its loose comparison (never asked first) is left open."""
    if isinstance(t, list):
        ms = [no_lone_null(m) for m in tm.members(t)]
        return "null" if set(map(repr, ms)) == {"'null'"} else ms
    if isinstance(t, dict) and "array" in t:
        return {"array": no_lone_null(t["array"])}
    if isinstance(t, dict) and "record" in t:
        return {"record": [[n, no_lone_null(f)] for n, f in t["record"]]}
    return t


@st.composite
def cases(draw):
    src = draw(tm.types(3))
    sink = draw(st.one_of(tm.mutate(src), tm.mutate(src), tm.types(3)))
    lm = draw(st.sampled_from([None, None, None, "merge_nested", "merge_flattened"]))
    if lm and draw(st.booleans()):
        sink = {"array": draw(tm.mutate(src))}
    src, sink = no_lone_null(src), no_lone_null(sink)
    return {"version": draw(st.sampled_from(tm.VERSIONS)), "src": src, "sink": sink, "linkMerge": lm,
            "valueFrom": draw(st.sampled_from([None] * 9 + ["$(self)"])),
            "families": [draw(st.sampled_from(tm.FAMILIES)), draw(st.sampled_from(tm.FAMILIES))],
            "perm": draw(st.integers(0, 5))}


def build(case, which, t):
    i = 0 if which == "src" else 1
    return tm.Builder(case["version"], case["families"][i], "file:///%s.cwl#%s" % (which, which), 10 * i)(t)


def reorder(t, k):
    """Another spelling of the same type: members and fields in another order, lone members as one-element unions."""
    if isinstance(t, list):
        ms = [reorder(x, k) for x in tm.members(t)]
        r = k % len(ms) if ms else 0
        ms = ms[r:] + ms[:r]
        return ms[::-1] if k % 2 else ms
    if isinstance(t, dict):
        if "array" in t:
            return {"array": reorder(t["array"], k)}
        if "record" in t:
            return {"record": [[n, reorder(f, k)] for n, f in (t["record"][::-1] if k % 2 == 0 else t["record"])]}
        return {"enum": t["enum"][::-1]}
    return t


def constructed(t):
    return not isinstance(t, str)


def check(case, ctx):
    v, lm, vf = case["version"], case["linkMerge"], case["valueFrom"]
    src, sink = build(case, "src", case["src"]), build(case, "sink", case["sink"])
    want = tm.verdict(case["src"], case["sink"], lm, vf)
    got = pu.check_types(src, sink, lm, vf)
    if got != want:
        raise Violation("check_types(%r -> %r, linkMerge=%s, valueFrom=%s) is %r, the rules give %r"
                        % (case["src"], case["sink"], lm, vf, got, want))
    for strict in (True, False):
        w = tm.assign(case["src"], case["sink"], strict)
        for f in [pu.can_assign_src_to_sink] + ([tm.vutils(v).can_assign_src_to_sink] if v == "v1.1" and hasattr(tm.vutils(v), "can_assign_src_to_sink") else []):
            g = f(src, sink, strict)
            if g is not w:
                raise Violation("%s.can_assign_src_to_sink(%r -> %r, strict=%s) is %r, expected %r" % (f.__module__, case["src"], case["sink"], strict, g, w))
    # another spelling of the same types
    s2, k2 = reorder(case["src"], case["perm"]), reorder(case["sink"], case["perm"] + 1)
    if case["perm"] == 3 and not isinstance(k2, list):
        k2 = [k2]
    if case["perm"] == 4 and not isinstance(s2, list):
        s2 = [s2]
    got2 = pu.check_types(build(case, "src", s2), build(case, "sink", k2), lm, vf)
    if got2 != want:
        raise Violation("spelling %r -> %r gives %r, %r -> %r gives %r" % (case["src"], case["sink"], want, s2, k2, got2))
    ctx.label("verdict:" + want, "linkMerge:%s" % lm, "version:" + v)
    for t in (case["src"], case["sink"]):
        for k in ("array", "record", "enum"):
            if any(isinstance(m, dict) and k in m for m in tm.members(t)):
                ctx.label("kind:" + k)
        if isinstance(t, list):
            ctx.label("kind:union")
    if vf is None and (constructed(case["src"]) or constructed(case["sink"])) and "Any" not in (case["src"], case["sink"]):
        ctx.nontrivial()


@st.composite
def bad_merge(draw):
    return {"src": draw(tm.types(1)), "sink": draw(tm.types(1)), "linkMerge": draw(st.sampled_from(["", "nested", "MERGE_NESTED", "merge-nested", "first_non_null", "merge_flatten"]))}


def check_bad(case, ctx):
    b = tm.Builder("v1.2")
    try:
        r = pu.check_types(b(case["src"]), b(case["sink"]), case["linkMerge"], None)
    except ValidationException:
        ctx.nontrivial()
        return
    raise Violation("check_types accepted linkMerge %r and gave %r" % (case["linkMerge"], r))


PROPS = [
    Prop("compatibility", cases(), check, quick=16000, thorough=400000),
    Prop("unknown_merge", bad_merge(), check_bad, quick=200, thorough=2000),
]
