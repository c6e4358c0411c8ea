"""Small corruptions of a JSON document."""

import copy

from hypothesis import strategies as st

BAD = [True, 7, -1.5, "zzz", "$(inputs.a)", [], {}, [7], ["zzz"], [[]], {"class": "Zzz"}, {"zzz": 1}, [{"id": "zz", "zzz": 1}],
       "int", "record", {"type": "array", "items": "zzz"}, {"type": "enum"}, ["null", "zzz"], "File?", {"class": "File"}]
NAMES = ["zzz", "inputz", "Class", "requirement", "ID", "type_", "in_", "default", "doc", "label", "format", "hints", "scatter",
         "glob", "secondaryFiles", "fields", "items", "symbols", "class", "name", "streamable", "loadListing", "pickValue", "when",
         "intent", "shellQuote", "linkMerge", "run"]


def paths(x, path=(), out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("$namespaces", "cwlVersion"):
                continue
            out.append(list(path) + [k])
            paths(v, tuple(path) + (k,), out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out.append(list(path) + [i])
            paths(v, tuple(path) + (i,), out)
    return out


@st.composite
def corruption(draw, doc):
    ps = paths(doc)
    kind = draw(st.sampled_from(["drop", "set", "set", "add", "rename"]))
    p = draw(st.sampled_from(ps))
    if kind == "drop":
        return ["drop", p]
    if kind == "set":
        return ["set", p, draw(st.sampled_from(BAD))]
    if kind == "rename":
        return ["rename", p, draw(st.sampled_from(NAMES))]
    return ["add", p[:-1], draw(st.sampled_from(NAMES)), draw(st.sampled_from(BAD))]


def apply(doc, c):
    d = copy.deepcopy(doc)
    p = c[1]
    x = d
    for k in (p if c[0] == "add" else p[:-1]):
        x = x[k]
    if c[0] == "drop":
        x.pop(p[-1])
    elif c[0] == "set":
        x[p[-1]] = copy.deepcopy(c[2])
    elif c[0] == "rename":
        if isinstance(x, dict):
            x[c[2]] = x.pop(p[-1])
        else:
            x.insert(0, copy.deepcopy(x[p[-1]]))
    elif isinstance(x, dict):
        x[c[2]] = copy.deepcopy(c[3])
    else:
        x.append(copy.deepcopy(c[3]))
    return d
