"""Schema-driven generation of CWL documents of any version: every record, field and alternative of the schemas."""

import functools

import schema_salad.avro.schema as av
from hypothesis import strategies as st

from lib import salad
from lib.util import json_values

NS = {"ex": "http://example.com/ns#", "cwltool": "http://commonwl.org/cwltool#", "edam": "http://edamontology.org/"}
IDS = ["a", "b", "c", "in1", "out1", "Foo", "foo_bar", "x9", "input", "output", "msg", "file1", "run", "id", "class1", "µ"]
STEP_IDS = ["step1", "step2", "s", "gather", "run", "step1b"]
EXT_RECORDS = {"Secrets", "ProcessGenerator", "MPIRequirement", "CUDARequirement", "ShmSize", "Loop", "LoadListingRequirement",
               "InplaceUpdateRequirement", "TimeLimit", "WorkReuse", "NetworkAccess"}
EXPRS = ["$(inputs.a)", "${return 1;}", "$(self[0].basename)", "pre $(inputs['x y']) post", "$(runtime.outdir)/x"]
STRINGS = ["", "x", "echo", "--flag", "two words", "multi\nline", "*.txt", "é漢", "yes", "1", "true", "#hash", "a: b", " lead",
           "quote\"'", "http://example.com/x?y=z#f", "null", "~", "$notexpr", "back\\slash"]

_WORD = st.sampled_from(STRINGS)
_EXPR = st.sampled_from(EXPRS)
_ANYVAL = json_values(st.sampled_from(["k", "key two", "z"]), 4, st.one_of(st.booleans(), st.integers(-9, 99), st.sampled_from(STRINGS), st.floats(0, 9).map(lambda f: round(f, 2)), st.none()))
ANYVAL = _ANYVAL.filter(lambda v: v is not None)


def tname(s):
    n = getattr(s, "name", None) or s.type
    return n.rsplit(".", 1)[-1]


def rec_names(schema, out=None):
    """Records directly nameable in a schema (through unions and arrays, not through records)."""
    out = set() if out is None else out
    if isinstance(schema, av.UnionSchema):
        for x in schema.schemas:
            rec_names(x, out)
    elif isinstance(schema, av.ArraySchema):
        rec_names(schema.items, out)
    elif isinstance(schema, av.RecordSchema):
        out.add(tname(schema))
    return out


@functools.cache
def distances(version, focus):
    """Record -> least number of field steps to `focus`."""
    recs = salad.records(version)
    succ = {n: {m for f in r.fields for m in rec_names(f.type)} for n, r in recs.items()}
    dist = {focus: 0}
    todo = [focus]
    while todo:
        nxt = []
        for n, ms in succ.items():
            if n not in dist and ms & set(todo):
                nxt.append(n)
        for n in nxt:
            dist[n] = 1 + min(dist[m] for m in succ[n] if m in dist)
        todo = nxt
    return dist


def longhand(t):
    """`T[]` and its long spelling are the same member of a union."""
    if isinstance(t, str) and t.endswith("[]"):
        return {"type": "array", "items": longhand(t[:-2])}
    return t


class Gen:
    """One document."""

    def __init__(self, draw, version, base, ext=True, focus=None):
        self.focus = focus
        self.dist = distances(version, focus) if focus else {}
        self.draw, self.version, self.ext = draw, version, ext
        self.recs = salad.records(version)
        self.seen = set()  # (record, field, alternative) reached
        self.namespaces = {}
        self.counter = 0
        self.base = base

    # -- helpers
    def chance(self, pct):
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def fresh(self, pool, used):
        n = self.pick(pool)
        if n in used:
            k = 2
            while "%s_%d" % (n, k) in used:
                k += 1
            n = "%s_%d" % (n, k)
        used.add(n)
        return n

    # -- values by schema
    def alternatives(self, schema):
        return schema.schemas if isinstance(schema, av.UnionSchema) else [schema]

    def process(self, name, depth, root):
        return self.record(name, depth, root=root)

    def near(self, schema):
        ds = [self.dist[n] for n in rec_names(schema) if n in self.dist]
        return min(ds) if ds else 99

    def toward(self, seq):
        """One of the alternatives, mostly one leading to the record in focus."""
        seq = list(seq)
        if self.focus and len(seq) > 1:
            best = min(self.near(x) for x in seq)
            if best < 99 and self.chance(80):
                seq = [x for x in seq if self.near(x) == best]
        return self.pick(seq)

    def weight(self, rec, f):
        if rec == self.focus:
            return 60
        if self.focus and rec in self.dist and self.near(f.type) < self.dist[rec]:
            return 85
        return 30

    def record(self, name, depth, root=False, scope=None, ident=None):
        rec = self.recs[name]
        out = {}
        is_proc = name in ("CommandLineTool", "ExpressionTool", "Workflow", "Operation", "ProcessGenerator")
        names = [f.name for f in rec.fields]
        step_in = []
        for f in rec.fields:
            alts = self.alternatives(f.type)
            optional = any(tname(a) == "null" for a in alts) or f.get_prop("default") is not None
            fn = f.name
            if fn == "class":
                cls = name
                if name in EXT_RECORDS and "cwltool" in str(rec.name) or (name in EXT_RECORDS and self.is_ext(name)):
                    cls = "cwltool:" + name
                    self.namespaces["cwltool"] = NS["cwltool"]
                out["class"] = cls
                continue
            if fn == "cwlVersion":
                if root:
                    out["cwlVersion"] = self.version
                continue
            if fn == "id":
                if ident is not None:
                    out["id"] = ident
                elif is_proc and self.chance(40):
                    out["id"] = self.pick(["tool", "wf", "proc"])
                elif not is_proc and not optional:
                    out["id"] = self.fresh(IDS, scope if scope is not None else set())
                continue
            if optional and not self.chance(self.weight(name, f) if depth < 5 or name == self.focus else 15):
                continue
            v = self.field(name, f, alts, depth, out)
            if v is None and optional:
                continue
            out[fn] = v
        if self.ext and self.chance(30 if name == self.focus else 7) and not name.endswith("Schema") and name not in ("SecondaryFileSchema", "Dirent", "File", "Directory"):
            self.namespaces["ex"] = NS["ex"]
            out["ex:" + self.pick(["note", "other"])] = self.draw(ANYVAL)
        self.finish(name, out, depth)
        return out

    def is_ext(self, name):
        return "commonwl.org.cwltool" in self.recs[name].name or ".cwltool." in self.recs[name].name or self.recs[name].name.startswith("org.commonwl.cwltool") or self.recs[name].name.startswith("commonwl")

    def finish(self, name, out, depth):
        """Cross-field soundness."""
        if name == "WorkflowStep" and "scatter" in out:
            ids = list(out["in"]) if isinstance(out["in"], dict) else [i["id"] for i in out["in"]]
            sc = out["scatter"]
            n = 1 if isinstance(sc, str) else len(sc)
            if not ids:
                out.pop("scatter")
                out.pop("scatterMethod", None)
            else:
                picked = []
                for _ in range(n):
                    picked.append(self.pick(ids))
                picked = list(dict.fromkeys(picked))
                if isinstance(sc, str):
                    out["scatter"] = picked[0]
                else:
                    out["scatter"] = picked

    def field(self, rname, f, alts, depth, out):
        fn = f.name
        pred = f._props.get("jsonldPredicate")
        pred = pred if isinstance(pred, dict) else {}
        nonnull = [a for a in alts if tname(a) != "null"]
        if pred.get("typeDSL") or (fn == "items" and rname.endswith("ArraySchema")):
            return self.type_field(rname, fn, alts, depth)
        if fn == "secondaryFiles" and rname not in ("File",):
            return self.secondary(rname)
        if fn == "format":
            self.namespaces["edam"] = NS["edam"]
            many = any(tname(a) == "array" for a in nonnull)
            one = st.sampled_from(["edam:format_1234", "http://example.com/ns#fmt", "edam:format_2"] + (["$(inputs.a.format)"] if rname != "File" else []))
            if many and self.chance(30):
                return [x for x in self.draw(st.lists(st.sampled_from(["edam:format_1234", "http://example.com/f2"]), min_size=1, max_size=2, unique=True))]
            return self.draw(one)
        if fn in ("source", "outputSource", "loopSource"):
            one = st.sampled_from(["a", "b", "step1/out1", "step2/a", "in1"])
            if any(tname(a) == "array" for a in nonnull) and self.chance(40):
                return self.draw(st.lists(one, min_size=0, max_size=3, unique=True))
            return self.draw(one)
        if fn == "intent":
            self.namespaces["edam"] = NS["edam"]
            return self.draw(st.lists(st.sampled_from(["edam:operation_1", "http://edamontology.org/operation_2", "edam:operation_3"]), max_size=2, unique=True))
        if fn == "specs":
            return self.draw(st.lists(st.sampled_from(["https://example.org/tool?x=1", "http://example.org/t#f", "sub/spec.html"]), max_size=2, unique=True))
        if fn == "secrets":
            return self.draw(st.lists(st.sampled_from(["a", "b"]), min_size=1, max_size=2, unique=True))
        if fn == "scatter":
            return self.pick(["a", ["a"], ["a", "b"]])
        if fn == "run":
            procs = [tname(a) for a in nonnull if isinstance(a, av.RecordSchema)]
            procs = [p for p in procs if p != "ProcessGenerator"]
            if depth >= 4 or self.chance(35) or not procs:
                return self.pick(["other.cwl", "sub/other2.cwl", "other.cwl#main"])
            return self.process(self.pick(procs if depth < 2 else [p for p in procs if p != "Workflow"]), depth + 1, False)
        if fn in ("location", "path"):
            return "data.txt"
        if fn == "listing" and rname == "InitialWorkDirRequirement":
            pass
        if pred.get("mapSubject") or (len(nonnull) == 1 and tname(nonnull[0]) == "array"):
            arr = [a for a in nonnull if isinstance(a, av.ArraySchema)][0]
            return self.array(rname, fn, arr, depth, pred)
        return self.value(rname, fn, self.toward(nonnull), depth)

    def items_count(self, depth):
        return self.draw(st.integers(0, 3 if depth < 2 else 2))

    def array(self, rname, fn, arr, depth, pred=None):
        pred = pred or {}
        items = self.alternatives(arr.items)
        subj = pred.get("mapSubject")
        out = []
        used = set()
        if fn in ("requirements", "hints"):
            names = [tname(a) for a in items if isinstance(a, av.RecordSchema)]
            if not names or fn == "hints":
                names = sorted(self.requirement_names())
            names = [n for n in names if n != "Loop" or rname == "WorkflowStep"]
            if "SchemaDefRequirement" in names and depth > 2:
                names.remove("SchemaDefRequirement")
            want = self.draw(st.lists(st.sampled_from(names), max_size=4, unique=True))
            close = [n for n in names if self.dist.get(n, 99) < self.dist.get(rname, 99)]
            if close and self.chance(85):
                k = min(self.dist[n] for n in close)
                c = self.pick([n for n in close if self.dist[n] == k])
                if c not in want:
                    want.append(c)
            for n in want:
                out.append(self.record(n, depth + 1))
            if fn == "hints" and self.chance(20):
                self.namespaces["ex"] = NS["ex"]
                out.append({"class": "ex:Hint%d" % self.draw(st.integers(1, 2)), "payload": self.draw(ANYVAL)})
            return self.mapform(out, "class", None) if self.chance(40) else out
        n = self.items_count(depth)
        if n == 0 and self.focus and self.near(arr) < self.dist.get(rname, 99) and self.chance(90):
            n = 1
        if fn in ("symbols",):
            return [str(x) for x in self.draw(st.lists(st.sampled_from(["A", "b", "sym1", "two"]), min_size=1, max_size=3, unique=True))]
        if rname == "WorkflowStep" and fn == "out":
            res = []
            for i in self.draw(st.lists(st.sampled_from(IDS), max_size=3, unique=True)):
                res.append(i if self.chance(60) else {"id": i})
            return res
        for _ in range(n):
            item = self.toward(items)
            if isinstance(item, av.RecordSchema):
                nm = tname(item)
                flds = {f.name for f in item.fields}
                if "id" in flds:
                    ident = self.fresh(STEP_IDS if nm == "WorkflowStep" else IDS, used)
                    out.append(self.record(nm, depth + 1, ident=ident))
                elif "name" in flds and fn == "fields":
                    r = self.record(nm, depth + 1)
                    r["name"] = self.fresh(IDS, used)
                    out.append(r)
                else:
                    r = self.record(nm, depth + 1)
                    if subj and subj in r:
                        k = r[subj]
                        if k in used:
                            continue
                        used.add(k)
                    out.append(r)
            else:
                out.append(self.value(rname, fn, item, depth + 1))
        if fn == "types":
            for i, r in enumerate(out):
                if "name" in {f.name for f in self.recs[{"record": "InputRecordSchema", "enum": "InputEnumSchema", "array": "InputArraySchema"}[r["type"]]].fields}:
                    r["name"] = "Type%d" % i
            return out
        if subj and fn not in ("types",) and self.chance(45):
            return self.mapform(out, subj, pred.get("mapPredicate"))
        return out

    def mapform(self, lst, subj, predicate):
        m = {}
        for r in lst:
            if not isinstance(r, dict) or subj not in r or r[subj] in m:
                return lst
            k = r[subj]
            rest = {a: b for a, b in r.items() if a != subj}
            if predicate and set(rest) == {predicate} and not isinstance(rest[predicate], dict) and self.chance(70):
                if predicate == "source" and rest[predicate] is None:
                    m[k] = rest
                else:
                    m[k] = rest[predicate]
            else:
                m[k] = rest
        return m

    def requirement_names(self):
        out = set()
        for n, s in self.recs.items():
            fl = [f.name for f in s.fields]
            if "class" in fl and (n.endswith("Requirement") or n in EXT_RECORDS or n in ("WorkReuse", "NetworkAccess", "ToolTimeLimit", "TimeLimit")):
                if n != "ProcessGenerator" and n != "Loop":
                    out.add(n)
        return out

    def secondary(self, rname):
        if self.version == "v1.0":
            pat = st.sampled_from([".bai", "^.idx", "$(self.basename).x", "file?"])
        else:
            pat = st.sampled_from([".bai", ".bai?", "^.idx", "^^.dict?", "$(self.basename).x"])
        obj = st.fixed_dictionaries({"pattern": st.sampled_from([".a", "^.b", "$(inputs.x)"])},
                                    optional={"required": st.sampled_from([True, False, "$(inputs.flag)"])})
        if self.version == "v1.0":
            return self.draw(st.one_of(pat, st.lists(pat, max_size=3)))
        one = st.one_of(pat, obj)
        return self.draw(st.one_of(one, st.lists(one, max_size=3)))

    def type_field(self, rname, fn, alts, depth):
        """A type expression, in any spelling."""
        if isinstance(alts[0], av.EnumSchema) and len(alts) == 1 and len(alts[0].symbols) == 1 and "Schema" in rname:
            return alts[0].symbols[0].rsplit("/", 1)[-1].rsplit(".", 1)[-1]
        opts = [a for a in alts]
        a = self.toward(opts)
        return self.type_value(rname, fn, a, opts, depth)

    def symbol(self, s):
        return s.rsplit("/", 1)[-1].rsplit("#", 1)[-1]

    def prim(self, alts):
        syms = []
        for a in alts:
            if isinstance(a, av.EnumSchema):
                syms += [self.symbol(s) for s in a.symbols]
        syms = [s for s in syms if s in ("null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any")]
        return self.pick(syms or ["string"])

    def type_value(self, rname, fn, a, alts, depth):
        n = tname(a)
        if isinstance(a, av.EnumSchema) or isinstance(a, av.PrimitiveSchema):
            syms = [self.symbol(s) for s in a.symbols] if isinstance(a, av.EnumSchema) else []
            if syms and len(syms) == 1 and syms[0] in ("stdin", "stdout", "stderr"):
                return syms[0]
            if syms and set(syms) == {"array"}:
                return "array"
            if len(alts) == 1 and syms:
                return self.pick(syms)
            t = self.prim(alts)
            if t != "null" and fn != "items":
                t += self.pick(["", "", "", "?", "[]", "[]?"])
                if self.version == "v1.2" and t.endswith("[]") and self.chance(30):
                    t += "[]"
            return t
        if isinstance(a, av.ArraySchema):
            out = []
            inner = [x for x in self.alternatives(a.items)]
            for _ in range(self.draw(st.integers(1, 3))):
                b = self.toward(inner)
                if isinstance(b, av.RecordSchema) and depth > 4:
                    continue
                v = self.type_value(rname, fn, b, inner, depth + 1)
                if isinstance(v, str):
                    v = v.rstrip("?")
                if longhand(v) not in [longhand(o) for o in out] and not isinstance(v, list) and v not in ("stdin", "stdout", "stderr"):
                    out.append(v)
            return out or ["null", "string"]
        if isinstance(a, av.RecordSchema):
            if depth > 5:
                return "string"
            return self.record(n, depth + 1)
        if isinstance(a, av.UnionSchema):
            return self.type_value(rname, fn, self.toward(a.schemas), a.schemas, depth)
        return "string"

    def value(self, rname, fn, a, depth):
        n = tname(a)
        if isinstance(a, av.RecordSchema):
            return self.record(n, depth + 1)
        if isinstance(a, av.ArraySchema):
            return self.array(rname, fn, a, depth)
        if isinstance(a, av.UnionSchema):
            return self.value(rname, fn, self.pick([x for x in a.schemas if tname(x) != "null"]), depth)
        if isinstance(a, av.EnumSchema):
            if n == "Any":
                return self.any_value(fn)
            if n == "Expression":
                return self.draw(_EXPR)
            return self.symbol(self.pick(a.symbols))
        if isinstance(a, av.MapSchema) or type(a).__name__ in ("NamedUnionSchema", "MapSchema"):
            return self.any_value(fn)
        p = a.type
        if p == "string":
            if fn in ("stdin", "stdout", "stderr"):
                return self.pick(["out.txt", "x/y.log", "$(inputs.a)"])
            return self.draw(st.one_of(_WORD, _EXPR)) if fn not in ("name",) else self.pick(IDS)
        if p == "boolean":
            return self.draw(st.booleans())
        if p in ("int",):
            return self.draw(st.integers(-2**31, 2**31 - 1)) if self.chance(20) else self.draw(st.integers(0, 10))
        if p == "long":
            return self.draw(st.integers(-2**63, 2**63 - 1)) if self.chance(20) else self.draw(st.integers(0, 10))
        if p in ("float", "double"):
            return self.draw(st.integers(1, 800).map(lambda k: k / 8 + 0.0625))
        if p == "null":
            return None
        raise AssertionError(a)

    def any_value(self, fn):
        if fn == "default" and self.chance(25):
            out = {"class": self.pick(["File", "Directory"]), "location": "data.txt"}
            if self.chance(30):
                out["basename"] = "nm.txt"
            if out["class"] == "File" and self.chance(30):
                out["secondaryFiles"] = [{"class": "File", "location": "data.txt"}]
            return out
        return self.draw(ANYVAL)


ROOTS = {"v1.0": ["CommandLineTool", "ExpressionTool", "Workflow"], "v1.1": ["CommandLineTool", "ExpressionTool", "Workflow"],
         "v1.2": ["CommandLineTool", "ExpressionTool", "Workflow", "Operation"]}


@functools.cache
def focusable(version):
    reach = set()
    todo = list(ROOTS[version])
    recs = salad.records(version)
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)
        for f in recs[n].fields:
            todo += sorted(rec_names(f.type))
    return sorted(reach - {"ProcessGenerator"})


@st.composite
def documents(draw, versions=salad.VERSIONS, roots=None, ext=True):
    version = draw(st.sampled_from(list(versions)))
    focus = draw(st.sampled_from([None] + focusable(version)))
    g = Gen(draw, version, None, ext, focus)
    names = [r for r in ROOTS[version] if roots is None or r in roots]
    if focus:
        best = min(g.dist.get(n, 99) for n in names)
        names = [n for n in names if g.dist.get(n, 99) == best]
    else:
        names = names + [n for n in names if n in ("CommandLineTool", "Workflow")]
    doc = g.process(draw(st.sampled_from(names)), 0, True)
    if g.namespaces:
        doc["$namespaces"] = dict(sorted(g.namespaces.items()))
    return doc


def count(doc, labels, path=""):
    """Record classes and fields present, for the evidence."""
    if isinstance(doc, dict):
        for k, v in doc.items():
            count(v, labels, k)
    elif isinstance(doc, list):
        for v in doc:
            count(v, labels, path)
    return labels
