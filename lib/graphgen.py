"""Writes a process tree (see packgen) as one $graph document, in the style of `cwltool --pack` or as by hand.

`Graph(m, choices).run()` sets `doc` (the document), `resolved` (the same without `$import`) and `ids` (of the processes).
"""
import copy

IDS = ["tool", "main2", "ma", "a", "s1", "toolcwl", "tool.cwl_2.cwl", "my tool", "tool-2", "to", "é", "a+b", "main_2.cwl", "mainx.cwl", "in1",
       "sub.cwl", "sub2.cwl", "x.y.cwl", "file.txt", "step.3", "b", "run", "o1"]


class Graph:
    def __init__(self, m, choices):
        self.m, self.choices, self.k = m, choices, 0
        self.labels, self.ids, self.graph = set(), [], []
        self.seen_types = set()

    def pick(self, n, what=None):
        if not self.choices:
            return 0
        c = self.choices[self.k % len(self.choices)] if self.k < 8 * len(self.choices) else 0
        self.k += 1
        if what and c % n:
            self.labels.add(what)
        return c % n

    def new_id(self):
        i = IDS[(self.pick(len(IDS))) % len(IDS)]
        while i in self.ids:
            i = IDS[(IDS.index(i) + 1) % len(IDS)]
        self.ids.append(i)
        return i

    # ids and references: `at` is the absolute id of the scope, without '#'
    def ident(self, name, at):
        if self.packed or self.pick(4, "absolute ids by hand") == 1:
            return "#%s/%s" % (at, name)
        return name

    def ref(self, doc, target):
        """A source, outputSource or scatter: `target` is relative to the process `doc`."""
        if isinstance(target, list):
            return [self.ref(doc, t) for t in target]
        if self.packed or self.pick(3, "absolute references by hand") == 1:
            return "#%s/%s" % (doc, target)
        return target

    def type(self, t, at, scope):
        if isinstance(t, str):
            return t
        if isinstance(t, list):
            return [self.type(x, at, scope) for x in t]
        if "ref" in t:
            if scope:
                k = self.pick(6, "types with suffix") if not self.packed else 0
                if k == 1:
                    return scope[t["ref"]] + "[]"
                if k == 2:
                    return scope[t["ref"]] + "?"
                return scope[t["ref"]]
            return self.type(self.m["types"][t["ref"]], at, scope)
        return self.bare(t, at, scope)

    def bare(self, t, at, scope, name=None):
        """`at` is the absolute id of what the type belongs to."""
        if "array" in t:
            return {"type": "array", "items": self.type(t["array"], at, scope)}
        if "record" in t:
            d = {"type": "record"}
            if name is None and self.pick(4, "named records") == 1 and not self.no_names:
                name = "r"
                d["name"] = self.ident(name, at)
                at += "/r"
            d["fields"] = [{"name": self.ident(n, at), "type": self.type(x, at + "/" + n, scope)} for n, x in t["record"]]
            return d
        if self.packed:
            return {"type": "enum", "symbols": ["#%s/%s" % (at, s) for s in t["enum"]]}
        return {"type": "enum", "symbols": list(t["enum"])}

    def schemadef(self, doc):
        """(requirement, references to the types as seen in `doc`)."""
        n = len(self.m["types"])
        k = self.pick(5, "schema definitions") if n else 0
        if k == 0:
            return None, None
        self.labels.add("schema definitions")
        if k == 1:
            files = [doc] * n  # defined in the process itself
        elif k == 2:
            files = ["types-%d.yml" % i for i in range(n)]
        else:
            files = ["types.yml"] * n
        packed, self.packed = self.packed, True
        names = [f + "/n%d" % i for i, f in enumerate(files)]
        scope = ["#" + x for x in names]
        self.no_names, old = True, self.no_names
        types, resolved = [], []
        for i, t in enumerate(self.m["types"]):
            d = dict(self.bare(t, names[i], scope, "n"), name="#" + names[i])
            resolved.append(d)
            if names[i] in self.seen_types and self.pick(4, "types imported from another process") != 1 and k != 1:
                types.append({"$import": "#" + names[i]})
            else:
                types.append(d)
            self.seen_types.add(names[i])
        self.packed, self.no_names = packed, old
        return {"class": "SchemaDefRequirement", "types": {"%both%": (types, resolved)}}, scope

    def keyed(self, items, key, value):
        if self.packed or self.pick(2, "map form") == 0 or any(i[key].startswith("#") for i in items):
            return items
        out = {}
        for i in items:
            rest = {k: v for k, v in i.items() if k != key}
            if set(rest) == {value} and not isinstance(rest[value], dict) and self.pick(2):
                rest = rest[value]
            out[i[key]] = rest
        return out

    def process(self, p, doc, base, scope=None):
        """`doc` the id of the graph entry, `base` the absolute id of this process."""
        d = {k: v for k, v in p.items() if k not in ("inputs", "outputs", "steps", "requirements", "hints")}
        req = None
        if doc == base or scope is None:
            req, scope = self.schemadef(base)
        self.no_names = True
        d["inputs"] = self.keyed([dict(i, id=self.ident(i["id"], base), type=self.type(i["type"], base + "/" + i["id"], scope)) for i in p["inputs"]], "id", "type")
        self.no_names = self.m["version"] == "v1.0" and p["class"] != "CommandLineTool"
        outs = []
        for o in p["outputs"]:
            o = dict(o, id=self.ident(o["id"], base), type=self.type(o["type"], base + "/" + o["id"], scope))
            if "outputSource" in o:
                o["outputSource"] = self.ref(base, o["outputSource"])
            outs.append(o)
        self.no_names = False
        d["outputs"] = self.keyed(outs, "id", "type")
        d["requirements"] = self.keyed([dict(r) for r in p["requirements"]] + ([req] if req else []), "class", None)
        if p["hints"]:
            d["hints"] = self.keyed([dict(r) for r in p["hints"]], "class", None)
        if "steps" in p:
            d["steps"] = self.keyed([self.step(s, doc, base, scope) for s in p["steps"]], "id", None)
        return d

    def step(self, s, doc, base, scope):
        at = base + "/" + s["id"]
        d = {k: v for k, v in s.items() if k not in ("in", "out", "run")}
        d["id"] = self.ident(s["id"], base)
        ins = []
        for i in s["in"]:
            i = dict(i, id=self.ident(i["id"], at))
            if "source" in i:
                i["source"] = self.ref(base, i["source"])
            ins.append(i)
        d["in"] = self.keyed(ins, "id", "source")
        d["out"] = [{"id": self.ident(o, at)} if not self.packed and self.pick(3) == 1 else self.ident(o, at) for o in s["out"]]
        if "scatter" in s:
            sc = s["scatter"]
            if self.packed or self.pick(3) == 1:
                sc = ["#%s/%s" % (at, x) for x in sc] if isinstance(sc, list) else "#%s/%s" % (at, sc)
            d["scatter"] = sc
        if self.pick(4, "inline process") == 1:
            inner = at + ("" if self.m["version"] == "v1.0" else "/run")
            if self.pick(3, "inline process with an id") == 1:
                inner = at + "/inner"
                d["run"] = dict(self.process(s["run"], doc, inner, scope), id="#" + inner)
            else:
                d["run"] = self.process(s["run"], doc, inner, scope)
        else:
            new = self.new_id()
            self.entry(s["run"], new)
            d["run"] = "#" + new
        return d

    def entry(self, p, name):
        d = self.process(p, name, name)
        d["id"] = "#" + name if self.packed or self.pick(2) else name
        # cwltool writes the processes in the order of their URIs
        self.graph.insert(self.pick(len(self.graph) + 1), d)

    def run(self):
        self.packed = self.pick(3, "by hand") != 1
        self.no_names = False
        name = "main" if self.pick(4, "root not main") != 1 else "root.cwl"
        self.ids.append(name)
        self.root = name
        self.entry(self.m["process"], name)
        self.doc = {"cwlVersion": self.m["version"], "$graph": choose(self.graph, 0)}
        self.resolved = {"cwlVersion": self.m["version"], "$graph": choose(self.graph, 1)}
        return self


def choose(x, which):
    if isinstance(x, dict):
        if "%both%" in x:
            return copy.deepcopy(x["%both%"][which])
        return {k: choose(v, which) for k, v in x.items()}
    if isinstance(x, list):
        return [choose(v, which) for v in x]
    return x
