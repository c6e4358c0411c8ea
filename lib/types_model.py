"""Reference model of CWL types and of the compatibility of a source with a sink.

A type is a JSON value: "int" | {"array": T} | {"record": [[name, T], ...]} | {"enum": [symbol, ...]} | [T, ...] (union).
The model is written from the CWL rules and shares no code with the library.
"""
import importlib

from hypothesis import strategies as st

PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any"]
FIELDS = ["a", "b", "c"]
SYMS = ["x", "y", "z", "w"]
VERSIONS = ["v1.0", "v1.1", "v1.2"]


def mod(version):
    return importlib.import_module("cwl_utils.parser.cwl_" + version.replace(".", "_"))


def vutils(version):
    return importlib.import_module("cwl_utils.parser.cwl_%s_utils" % version.replace(".", "_"))


# ---- model -------------------------------------------------------------------------------------------------
def members(t):
    if isinstance(t, list):
        out = []
        for x in t:
            out += members(x)
        return out
    return [t]


def assign(src, sink, strict):
    """strict: every value of src is a value of sink.  loose: some alternative of src other than null fits."""
    if src == "Any" or sink == "Any":
        return True
    src_ms = members(src)
    if not strict and len(src_ms) > 1:
        src_ms = [m for m in src_ms if m != "null"]
    hits = [any(basic(m, n, strict) for n in members(sink)) for m in src_ms]
    return all(hits) if strict else any(hits)


def basic(m, n, strict):
    if m == "Any" or n == "Any":
        return True
    if isinstance(m, dict) and isinstance(n, dict):
        if "array" in m and "array" in n:
            return assign(m["array"], n["array"], strict)
        if "record" in m and "record" in n:
            have = dict(m["record"])
            return all(assign(have.get(k, "null"), t, strict) for k, t in n["record"])
        if "enum" in m and "enum" in n:
            return set(m["enum"]) <= set(n["enum"]) if strict else bool(set(m["enum"]) & set(n["enum"]))
        return False
    return m == n


def flatten(t):
    if isinstance(t, list):
        return [flatten(x) for x in t]
    return t if isinstance(t, dict) and "array" in t else {"array": t}


def verdict(src, sink, link_merge=None, value_from=None):
    if value_from is not None:
        return "pass"
    if link_merge == "merge_nested":
        src = {"array": src}
    elif link_merge == "merge_flattened":
        src = flatten(src)
    if assign(src, sink, True):
        return "pass"
    return "warning" if assign(src, sink, False) else "exception"


def norm(t):
    """Canonical form: union members and record fields sorted, single unions unwrapped."""
    if isinstance(t, list):
        ms = []
        for m in members(t):
            m = norm(m)
            if m not in ms:
                ms.append(m)
        return ms[0] if len(ms) == 1 else sorted(ms, key=repr)
    if isinstance(t, dict):
        if "array" in t:
            return {"array": norm(t["array"])}
        if "record" in t:
            return {"record": sorted([[k, norm(v)] for k, v in t["record"]])}
        return {"enum": sorted(t["enum"])}
    return t


# ---- generators ----------------------------------------------------------------------------------------------
def prims(any_ok=True):
    return st.sampled_from([p for p in PRIMS if any_ok or p != "Any"])


@st.composite
def types(draw, depth=2, any_ok=True, null_ok=True):
    kind = draw(st.sampled_from(["prim"] * 4 + (["array", "array", "union", "union", "record", "enum"] if depth else ["enum"])))
    if kind == "prim":
        return draw(st.sampled_from([p for p in PRIMS if (any_ok or p != "Any") and (null_ok or p != "null")]))
    if kind == "array":
        return {"array": draw(types(depth - 1, any_ok))}
    if kind == "record":
        names = draw(st.lists(st.sampled_from(FIELDS), unique=True, min_size=0 if null_ok else 1, max_size=3))
        return {"record": [[n, draw(types(depth - 1, any_ok))] for n in names]}
    if kind == "enum":
        return {"enum": draw(st.lists(st.sampled_from(SYMS), unique=True, min_size=1, max_size=3))}
    ms = draw(st.lists(types(depth - 1, any_ok), min_size=1, max_size=4))
    out = []
    for m in ms:
        for x in members(m):
            if x not in out:
                out.append(x)
    return out


@st.composite
def mutate(draw, t, any_ok=True):
    """A type related to t, so that pairs are often comparable in an interesting way."""
    op = draw(st.sampled_from(["same", "same", "widen", "narrow", "inside", "inside", "other", "wrap", "unwrap", "optional"]))
    if op == "same":
        return t
    if op == "other":
        return draw(types(1, any_ok))
    if op == "wrap":
        return {"array": t}
    if op == "optional":
        return (["null"] + [m for m in members(t) if m != "null"])
    if op == "unwrap":
        return t["array"] if isinstance(t, dict) and "array" in t else t
    if op == "widen":
        x = draw(types(1, any_ok))
        out = []
        for m in members(t) + members(x):
            if m not in out:
                out.append(m)
        return draw(st.permutations(out))
    if op == "narrow":
        ms = members(t)
        keep = draw(st.lists(st.sampled_from(range(len(ms))), unique=True, min_size=1)) if ms else []
        return [ms[i] for i in sorted(keep)] if keep else t
    # inside
    if isinstance(t, dict):
        if "array" in t:
            return {"array": draw(mutate(t["array"], any_ok))}
        if "enum" in t:
            return {"enum": draw(st.lists(st.sampled_from(SYMS), unique=True, min_size=1, max_size=4))}
        fs = []
        for n, f in t["record"]:
            act = draw(st.sampled_from(["keep", "keep", "mutate", "drop"]))
            if act == "keep":
                fs.append([n, f])
            elif act == "mutate":
                fs.append([n, draw(mutate(f, any_ok))])
        if draw(st.integers(0, 3)) == 3:
            rest = [x for x in FIELDS if x not in [n for n, _ in fs]]
            if rest:
                fs.append([draw(st.sampled_from(rest)), draw(types(1, any_ok))])
        return {"record": draw(st.permutations(fs))}
    if isinstance(t, list):
        return [draw(mutate(m, any_ok)) if draw(st.booleans()) else m for m in t]
    return t


# ---- building library objects and YAML -----------------------------------------------------------------------------
FAMILIES = ["Input", "CommandInput", "Output", "CommandOutput"]


class Builder:
    def __init__(self, version, family="Input", prefix="file:///w.cwl#p", seed=0):
        self.v, self.f, self.prefix, self.n = version, family, prefix, seed
        self.m = mod(version)

    def cls(self, kind):
        fam = self.f
        return getattr(self.m, "%s%sSchema" % (fam, kind)) if hasattr(self.m, "%s%sSchema" % (fam, kind)) else getattr(self.m, "Input%sSchema" % kind)

    def __call__(self, t):
        if isinstance(t, str):
            return t
        if isinstance(t, list):
            return flat_list([self(x) for x in t])
        self.n += 1
        name = "%s/t%d" % (self.prefix, self.n)
        if "array" in t:
            return self.cls("Array")(items=self(t["array"]), type_="array")
        if "enum" in t:
            return self.cls("Enum")(symbols=[name + "/" + s for s in t["enum"]], type_="enum", name=name)
        fcls = getattr(self.m, "%sRecordField" % self.f)
        kw = {"name": name} if self.f.endswith("put") else {}
        fields = [fcls(name=name + "/" + n, type_=self(f)) for n, f in t["record"]]
        try:
            return self.cls("Record")(fields=fields or None, type_="record", **kw)
        except TypeError:
            return self.cls("Record")(fields=fields or None, type_="record")


def flat_list(xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


def read(o):
    """Library type -> model type."""
    from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema

    if isinstance(o, str):
        return o
    if isinstance(o, (list, tuple)):
        return [read(x) for x in o]
    if isinstance(o, ArraySchema):
        return {"array": read(o.items)}
    if isinstance(o, RecordSchema):
        return {"record": [[f.name.split("#")[-1].split("/")[-1], read(f.type_)] for f in (o.fields or [])]}
    if isinstance(o, EnumSchema):
        return {"enum": [s.split("#")[-1].split("/")[-1] for s in o.symbols]}
    raise ValueError("not a type: %r" % (o,))


def yaml_type(t):
    """Model type -> CWL document form (anonymous schemas)."""
    if isinstance(t, str):
        return t
    if isinstance(t, list):
        return [yaml_type(x) for x in members(t)]
    if "array" in t:
        return {"type": "array", "items": yaml_type(t["array"])}
    if "enum" in t:
        return {"type": "enum", "symbols": list(t["enum"])}
    return {"type": "record", "fields": [{"name": n, "type": yaml_type(f)} for n, f in t["record"]]}
