"""Process trees: a generated model, written either as one plain document or split over files with imports and shortcuts.

`render(m)` gives the plain document (lists, full types, everything inline).  `split(m, choices)` gives the files of an
equivalent split document; `choices` is a list of integers, 0 meaning the plainest form each time.
"""
import json
import posixpath
from urllib.parse import quote

from hypothesis import strategies as st

PRIMS = ["string", "int", "File", "boolean", "float", "Directory", "long", "double", "Any"]
IDS = ["a", "b", "c", "in1", "out", "file.txt", "x-y", "source", "type", "run", "default", "format"]
NS = "http://example.com/ns#"


# ---- model -------------------------------------------------------------------------------------------------
@st.composite
def type_(draw, depth, nrefs):
    k = draw(st.integers(0, 9 if depth else 3))
    if nrefs and k in (3, 4, 9):
        return {"ref": draw(st.integers(0, nrefs - 1))}
    if k < 5:
        return draw(st.sampled_from(PRIMS))
    if k == 5:
        return {"array": draw(type_(depth - 1, nrefs))}
    if k == 6:
        return ["null", draw(type_(depth - 1, nrefs).filter(lambda t: t != "Any" and not isinstance(t, list)))]
    if k == 7:
        ns = draw(st.lists(st.sampled_from(["f", "g", "h"]), unique=True, min_size=1, max_size=2))
        return {"record": [[n, draw(type_(depth - 1, nrefs))] for n in ns]}
    if k == 8:
        return {"enum": draw(st.lists(st.sampled_from(["x", "y", "z"]), unique=True, min_size=1, max_size=3))}
    return [draw(st.sampled_from(["null", "string"])), "File", draw(type_(depth - 1, nrefs).filter(lambda t: isinstance(t, dict)))]


@st.composite
def process(draw, version, depth, nrefs, top=False):
    kinds = ["CommandLineTool", "ExpressionTool"] + (["Workflow"] * 4 if depth else [])
    p = {"class": "Workflow" if top and depth and draw(st.integers(0, 4)) else draw(st.sampled_from(kinds))}
    if draw(st.integers(0, 4)) == 4:
        p["doc"] = draw(st.sampled_from(["words", "two\nlines\n", "# not: yaml", "a.b", "2020-01-01"]))
    if draw(st.integers(0, 3)) == 3:
        p["label"] = draw(st.sampled_from(["a label", "12", "x.y"]))
    p["inputs"] = []
    for n in draw(st.lists(st.sampled_from(IDS), unique=True, max_size=3)):
        i = {"id": n, "type": draw(type_(2, nrefs))}
        if draw(st.integers(0, 4)) == 4:
            i["default"] = draw(st.sampled_from([1, "x", ["a"], {"k": [1]}, "#a", 1.5, True, "a.b", "2020-01-01", {"type": "Any"},
                                              {"id": 5, "run": "#main", "source": ["#main/a", 1], "items": "#a/b", "default": "#tool/a"}]))
        if draw(st.integers(0, 5)) == 5:
            i["doc"] = "input words"
        if p["class"] == "CommandLineTool" and draw(st.integers(0, 2)) == 2:
            i["inputBinding"] = {"position": draw(st.integers(0, 5))}
        if i["type"] == "File" and draw(st.integers(0, 3)) == 3:
            i["format"] = NS + "fmt"
        p["inputs"].append(i)
    if p["class"] == "Workflow":
        workflow(draw, p, version, depth, nrefs)
    else:
        p["outputs"] = []
        for n in draw(st.lists(st.sampled_from(IDS), unique=True, max_size=2)):
            o = {"id": n, "type": draw(type_(1, nrefs))}
            if p["class"] == "CommandLineTool":
                if draw(st.integers(0, 3)) == 3:
                    o["type"] = draw(st.sampled_from(["stdout", "stderr"]))
                else:
                    o["outputBinding"] = {"glob": draw(st.sampled_from(["*.txt", "a b", "$(inputs.a)"]))}
            p["outputs"].append(o)
        if p["class"] == "CommandLineTool":
            p["baseCommand"] = draw(st.sampled_from(["echo", ["python", "-c"]]))
            if draw(st.integers(0, 3)) == 3:
                p["stdout"] = draw(st.sampled_from(["out.txt", "$(inputs.a).txt"]))
            if draw(st.integers(0, 3)) == 3:
                p["arguments"] = ["-x", {"valueFrom": "$(inputs)", "position": 1}]
        else:
            p["expression"] = draw(st.sampled_from(["$({})", "${return {};}", "${\n  return {'a': 1.5};\n}\n"]))
    reqs = draw(st.lists(st.sampled_from(sorted(REQS[p["class"]])), unique=True, max_size=2))
    where = [draw(st.integers(0, 2)) for _ in reqs]
    p["requirements"] = [dict(REQS[p["class"]][r], **{"class": r}) for r, w in zip(reqs, where) if w]
    p["hints"] = [dict(REQS[p["class"]][r], **{"class": r}) for r, w in zip(reqs, where) if not w]
    return p


COMMON = {"InlineJavascriptRequirement": {"expressionLib": ["var x = 1.5;", "function f() {\n  return 1;\n}\n"]}, "ResourceRequirement": {"coresMin": 2},
          "DockerRequirement": {"dockerPull": "debian:8"}, "SoftwareRequirement": {"packages": [{"package": "p", "version": ["1"]}]}}
REQS = {"CommandLineTool": dict(COMMON, EnvVarRequirement={"envDef": [{"envName": "A", "envValue": "b"}]}, ShellCommandRequirement={},
                                InitialWorkDirRequirement={"listing": [{"entryname": "s.sh", "entry": "echo a.b"}, {"entryname": "t", "entry": "multi\nline.txt\n"}]}),
        "ExpressionTool": COMMON,
        "Workflow": dict(COMMON, SubworkflowFeatureRequirement={}, ScatterFeatureRequirement={}, StepInputExpressionRequirement={}, MultipleInputFeatureRequirement={})}


def workflow(draw, p, version, depth, nrefs):
    sources = [i["id"] for i in p["inputs"]]
    p["steps"] = []
    for n in draw(st.lists(st.sampled_from(["s1", "s2", "step.3", "a"]), unique=True, max_size=3)):
        run = draw(process(version, depth - 1, nrefs))
        s = {"id": n, "run": run, "in": [], "out": [o["id"] for o in run["outputs"]]}
        for i in run["inputs"]:
            if draw(st.integers(0, 5)) == 5:
                continue
            x = {"id": i["id"]}
            k = draw(st.integers(0, 5)) if sources else 5
            if k < 3:
                x["source"] = draw(st.sampled_from(sources))
            elif k < 5:
                x["source"] = draw(st.lists(st.sampled_from(sources), min_size=1, max_size=3))
                x["linkMerge"] = draw(st.sampled_from(["merge_nested", "merge_flattened"]))
            else:
                x["default"] = draw(st.sampled_from(["v", 3, ["#a"], {"class": "x"}, "#a", "12", {"id": "#main/a", "source": ["#main/a", 1], "run": "#a", "format": "#a/b"}]))
            if draw(st.integers(0, 5)) == 5:
                x["valueFrom"] = "$(self)"
            s["in"].append(x)
        if s["in"] and draw(st.integers(0, 3)) == 3:
            s["scatter"] = draw(st.sampled_from([s["in"][0]["id"], [s["in"][0]["id"]]]))
        if draw(st.integers(0, 4)) == 4:
            s["label"] = "step label"
        if version == "v1.2" and draw(st.integers(0, 4)) == 4:
            s["when"] = "$(inputs.a)"
        if draw(st.integers(0, 4)) == 4:
            s["requirements"] = [dict(COMMON["ResourceRequirement"], **{"class": "ResourceRequirement"})]
        if draw(st.integers(0, 4)) == 4:
            s["hints"] = [dict(COMMON["DockerRequirement"], **{"class": "DockerRequirement"})]
        p["steps"].append(s)
        sources += [n + "/" + o for o in s["out"]]
    p["outputs"] = []
    for n in draw(st.lists(st.sampled_from(["o1", "o2", "res"]), unique=True, max_size=2)) if sources else []:
        o = {"id": n, "type": draw(type_(1, nrefs))}
        if draw(st.integers(0, 2)):
            o["outputSource"] = draw(st.sampled_from(sources))
        else:
            o["outputSource"] = draw(st.lists(st.sampled_from(sources), min_size=1, max_size=2))
        if draw(st.integers(0, 5)) == 5:
            o["doc"] = "output words"
        p["outputs"].append(o)


@st.composite
def models(draw, max_depth=2):
    v = draw(st.sampled_from(["v1.0", "v1.1", "v1.2"]))
    n = draw(st.integers(0, 3))
    types = []
    for i in range(n):
        # v1.0 has no named arrays
        types.append(draw(type_(2, i).filter(lambda t: isinstance(t, dict) and "ref" not in t and (v != "v1.0" or "array" not in t))))
    return {"version": v, "types": types, "process": draw(process(v, draw(st.integers(0, max_depth)), n, True))}


def choice_lists(n=60):
    return st.lists(st.integers(0, 23), min_size=n, max_size=n)


# ---- plain form --------------------------------------------------------------------------------------------
def plain_type(m, t):
    if isinstance(t, str):
        return t
    if isinstance(t, list):
        return [plain_type(m, x) for x in t]
    if "ref" in t:
        return plain_type(m, m["types"][t["ref"]])
    if "array" in t:
        return {"type": "array", "items": plain_type(m, t["array"])}
    if "record" in t:
        return {"type": "record", "fields": [{"name": n, "type": plain_type(m, x)} for n, x in t["record"]]}
    return {"type": "enum", "symbols": t["enum"]}


def plain(m, p, subworkflow=True):
    d = dict(p)
    d["inputs"] = [dict(i, type=plain_type(m, i["type"])) for i in p["inputs"]]
    d["outputs"] = [dict(o, type=plain_type(m, o["type"])) for o in p["outputs"]]
    d["requirements"] = list(p["requirements"])
    if p["class"] == "Workflow":
        d["steps"] = [dict(s, run=plain(m, s["run"], subworkflow)) for s in p["steps"]]
        if subworkflow and any(s["run"]["class"] == "Workflow" for s in p["steps"]) and not any(r["class"] == "SubworkflowFeatureRequirement" for r in p["requirements"]):
            d["requirements"].append({"class": "SubworkflowFeatureRequirement"})
    return d


def render(m, subworkflow=True):
    return dict(plain(m, m["process"], subworkflow), cwlVersion=m["version"])


# ---- split form --------------------------------------------------------------------------------------------
DIRS = ["", "sub/", "../", "../lib/", "deep/er/", "my dir/"]
STEMS = ["f%d", "f%d", "f %d", "f+%d", "é%d", "f%d.x"]


class Split:
    """Writes a model into files; every decision is taken from the list of choices."""

    def __init__(self, m, choices, root="docs/main.cwl", features=()):
        self.m, self.choices, self.k = m, choices, 0
        self.files, self.texts = {}, {}
        self.labels = set()
        self.root = root
        self.off = set(features)
        self.type_files = {}

    def pick(self, n, what=None):
        """0..n-1, 0 when choices run out or the feature is switched off."""
        if what in self.off or not self.choices:
            return 0
        c = self.choices[self.k % len(self.choices)] if self.k < 4 * len(self.choices) else 0
        self.k += 1
        r = c % n
        if what and r:
            self.labels.add(what)
        return r

    def place(self, path, suffix):
        d = posixpath.normpath(posixpath.join(posixpath.dirname(path), DIRS[self.pick(len(DIRS), "other directory")]))
        if d.startswith("..") or d == ".":
            d = "docs"  # stay inside the tree
        return posixpath.join(d, STEMS[self.pick(len(STEMS), "odd file name")] % len(self.files) + suffix)

    def ref(self, path, target):
        r = posixpath.relpath(target, posixpath.dirname(path) or ".")
        k = self.pick(4, "reference style")
        if k == 1:
            return "./" + r
        if k == 2:
            return quote(r)
        if k == 3:
            return "%ROOT%/" + quote(target)
        return r

    def imported(self, path, f, suffix=".yml", what="import"):
        """f(path) in place, or an import of a file holding it."""
        if self.pick(3, what) != 1:
            return f(path)
        new = self.place(path, suffix)
        self.files[new] = None
        self.files[new] = f(new)
        return {"$import": self.ref(path, new)}

    def text(self, path, s, what="include"):
        if self.pick(3, what) != 1:
            return s
        new = self.place(path, ".txt")
        self.files[new] = ""
        self.texts[new] = s
        return {"$include": self.ref(path, new)}

    # types
    def type(self, t, path, scope, may_import=True, shortcuts=True):
        k = self.pick(8, "type shortcuts") if shortcuts else 0  # there are none in items
        if isinstance(t, list) and len(t) == 2 and t[0] == "null" and k in (1, 2):
            inner = self.type(t[1], path, scope)
            if isinstance(inner, str) and not inner.endswith("?"):
                return inner + "?"
            return ["null", inner]
        if isinstance(t, dict) and "array" in t and k in (1, 2):
            inner = self.type(t["array"], path, scope)
            if isinstance(inner, str) and not inner.endswith("?") and not inner.endswith("[]"):
                return inner + "[]"
        if isinstance(t, str):
            return t
        if may_import and not (isinstance(t, dict) and "ref" in t) and self.pick(5, "import of a type") == 1:
            new = self.place(path, ".yml")
            self.files[new] = None
            self.files[new] = self.type(t, new, scope, False, shortcuts)
            if isinstance(self.files[new], (dict, list)):
                return {"$import": self.ref(path, new)}
            return self.files.pop(new) if "#" not in self.files[new] else self.type(t, path, None, shortcuts=shortcuts)
        if isinstance(t, list):
            return [self.type(x, path, scope) for x in t]
        if "ref" in t:
            i = t["ref"]
            if scope is not None and i in scope:
                f = scope[i]
                if f == path:
                    name = self.name(i, f)
                    if name not in ("InputArraySchema", "Directory") and self.pick(3, "reference without #") == 1:  # not a word of CWL's
                        return name
                    return "#" + name
                return self.plain_ref(path, f) + "#" + self.name(i, f)
            return self.type(self.m["types"][i], path, scope, shortcuts=shortcuts)
        if "array" in t:
            return {"type": "array", "items": self.type(t["array"], path, scope, shortcuts=False)}
        if "record" in t:
            fs = [{"name": n, "type": self.type(x, path, scope)} for n, x in t["record"]]
            return {"type": "record", "fields": self.keyed(fs, "name", "type")}
        return {"type": "enum", "symbols": t["enum"]}

    def named(self, i, path, scope):
        return dict(self.type_dict(self.m["types"][i], path, scope), name=self.name(i, path))

    def name(self, i, f):
        if self.m.get("same names") and self.type_files.get(i) == f:
            return "n"  # each in its own file
        return self.m["names"][i] if "names" in self.m else "n%d" % i

    def type_dict(self, t, path, scope):
        if "array" in t:
            return {"type": "array", "items": self.type(t["array"], path, scope, shortcuts=False)}
        if "record" in t:
            fs = [{"name": n, "type": self.type(x, path, scope)} for n, x in t["record"]]
            return {"type": "record", "fields": self.keyed(fs, "name", "type")}
        return {"type": "enum", "symbols": t["enum"]}

    def keyed(self, items, key, value=None, what="map form"):
        """A list of maps, or one map by key (values abbreviated where only `value` is set)."""
        if self.pick(2, what) == 0 or any(not isinstance(i, dict) or key not in i for i in items):
            return items
        out = {}
        for i in items:
            rest = {k: v for k, v in i.items() if k != key}
            if value and set(rest) == {value} and not isinstance(rest[value], dict) and self.pick(2):
                rest = rest[value]
            out[i[key]] = rest
        return out

    def schemadef(self, path):
        """(requirement or None, scope): where each named type is defined as seen from this file."""
        n = len(self.m["types"])
        if not n:
            return None, {}
        k = self.pick(7, "schema definitions")
        if k == 0:
            return None, {}
        if k in (1, 2):  # one file with a list of types, shared
            if "list" not in self.type_files:
                f = self.place(path, ".yml")
                self.type_files["list"] = f
                self.files[f] = None
                sc = {i: f for i in range(n)}
                self.files[f] = [self.named(i, f, sc) for i in range(n)]
            f = self.type_files["list"]
            return {"class": "SchemaDefRequirement", "types": [{"$import": self.plain_ref(path, f)}]}, {i: f for i in range(n)}
        if k == 3:  # one file per type
            sc = {}
            for i in range(n):
                if i not in self.type_files:
                    f = self.place(path, ".yml")
                    self.type_files[i] = f
                    self.files[f] = None
                    sc[i] = f
                    self.files[f] = self.named(i, f, {j: self.type_files[j] for j in range(i + 1)})
                sc[i] = self.type_files[i]
            return {"class": "SchemaDefRequirement", "types": [{"$import": self.plain_ref(path, sc[i])} for i in range(n)]}, sc
        if k == 4:  # a file with the requirement
            if "requirement" not in self.type_files:
                f = self.place(path, ".yml")
                self.type_files["requirement"] = f
                self.files[f] = None
                sc = {i: f for i in range(n)}
                self.files[f] = {"class": "SchemaDefRequirement", "types": [self.named(i, f, sc) for i in range(n)]}
            f = self.type_files["requirement"]
            self.labels.add("import of the schema definitions")
            return {"$import": self.plain_ref(path, f)}, {i: f for i in range(n)}
        self.type_files["process"] = path
        sc = {i: path for i in range(n)}  # in the process
        return {"class": "SchemaDefRequirement", "types": [self.named(i, path, sc) for i in range(n)]}, sc

    def plain_ref(self, path, target):
        return posixpath.relpath(target, posixpath.dirname(path) or ".")

    # processes
    def params(self, ps, path, scope, key="id"):
        out = []
        for p in ps:
            def one(at, p=p):
                q = dict(p, type=self.type(p["type"], at, scope))
                if isinstance(q.get("doc"), str):
                    q["doc"] = self.text(at, q["doc"])
                if "outputSource" in q:
                    q["outputSource"] = self.source(q["outputSource"])
                if "default" in q and isinstance(q["default"], (list, dict)):
                    q["default"] = self.imported(at, lambda _: p["default"], what="import of a value")
                return q
            out.append(self.imported(path, one, what="import of a parameter"))
        res = self.keyed(out, "id", "type")
        if isinstance(res, dict) and self.pick(4, "shared nodes") == 1:  # one node object used twice: a YAML alias
            seen = {}
            for k, v in res.items():
                j = json.dumps(v, sort_keys=True)
                res[k] = seen.setdefault(j, v)
        return res

    def source(self, s):
        if isinstance(s, list):
            return [("#" + x if self.pick(3, "sources with #") == 1 else x) for x in s]
        return "#" + s if self.pick(3, "sources with #") == 1 else s

    def reqs(self, rs, path, what):
        out = []
        for r in rs:
            def one(at, r=r):
                r = dict(r)
                if "expressionLib" in r:
                    r["expressionLib"] = [self.text(at, x) for x in r["expressionLib"]]
                if "listing" in r:
                    r["listing"] = [dict(x, entry=self.text(at, x["entry"])) for x in r["listing"]]
                if "envDef" in r and self.pick(2):
                    r["envDef"] = {x["envName"]: x["envValue"] for x in r["envDef"]}
                return r
            out.append(self.imported(path, one, what="import of a requirement"))
        return self.keyed(out, "class")

    def process(self, p, path, parent_scope=None, external=True):
        if external or not parent_scope:
            req, scope = self.schemadef(path)
        else:
            req, scope = None, parent_scope
        d = {k: v for k, v in p.items() if k not in ("inputs", "outputs", "steps", "requirements", "hints")}
        if external:
            d["cwlVersion"] = self.m["version"]
        if "doc" in d:
            d["doc"] = self.text(path, d["doc"])
        if "expression" in d:
            d["expression"] = self.text(path, d["expression"])
        d["inputs"] = self.imported(path, lambda at: self.params(p["inputs"], at, scope), what="import of all parameters")
        d["outputs"] = self.imported(path, lambda at: self.params(p["outputs"], at, scope), what="import of all parameters")
        if not req and self.pick(8, "import of all requirements") == 1 and p["requirements"]:
            rs = self.imported(path, lambda at: self.reqs(p["requirements"], at, "requirements"), what="import of requirements")
        else:
            rs = self.reqs(p["requirements"], path, "requirements")
        if req:
            if isinstance(rs, dict) and "$import" in req:
                rs = [dict(v or {}, **{"class": k}) for k, v in rs.items()]
                rs.insert(0, req)
            elif isinstance(rs, dict):
                rs["SchemaDefRequirement"] = {"types": req["types"]}
            else:
                rs.insert(0, req)
        if rs or self.pick(3, "empty requirements"):
            d["requirements"] = rs
        if p["hints"]:
            d["hints"] = self.imported(path, lambda at: self.reqs(p["hints"], at, "hints"), what="import of all hints")
        if "steps" in p:
            d["steps"] = self.keyed([self.imported(path, lambda at, s=s: self.step(s, at, scope), what="import of a step") for s in p["steps"]], "id", what="steps as map")
        return d

    def step(self, s, path, scope):
        d = dict(s)
        ins = []
        for i in s["in"]:
            i = dict(i)
            if "source" in i:
                i["source"] = self.source(i["source"])
            ins.append(i)
        d["in"] = self.keyed(ins, "id", "source", what="step inputs as map")
        if self.pick(3, "outputs as maps") == 1:
            d["out"] = [{"id": o} for o in s["out"]]
        for k in ("requirements", "hints"):
            if k in s:
                d[k] = self.reqs(s[k], path, k)
        k = self.pick(4, "run in another file")
        if k in (1, 2):
            new = self.place(path, ".cwl")
            self.files[new] = None
            self.files[new] = self.process(s["run"], new)
            d["run"] = self.ref(path, new)
        elif k == 3:
            d["run"] = self.imported(path, lambda at: self.process(s["run"], at, scope, at != path), ".cwl", "import of a process")
        else:
            d["run"] = self.process(s["run"], path, scope, False)
        return d

    def run(self):
        self.files[self.root] = None
        self.files[self.root] = self.process(self.m["process"], self.root)
        return self


def bind(x, root, memo=None):
    """The object with %ROOT% replaced; nodes used twice stay one node."""
    memo = {} if memo is None else memo
    if isinstance(x, str):
        return x.replace("%ROOT%", root)
    if not isinstance(x, (dict, list)):
        return x
    if id(x) not in memo:
        memo[id(x)] = ({k: bind(v, root, memo) for k, v in x.items()} if isinstance(x, dict) else [bind(v, root, memo) for v in x]), x
    return memo[id(x)][0]
