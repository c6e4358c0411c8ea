"""C22: objects built or edited in Python are saved as the documents they describe."""

import copy
import inspect
import functools
import json

from hypothesis import strategies as st
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions, Saveable

from checks.c01 import graphs
from lib import salad
from lib.canonical import BLANK, canonical, diff
from lib.docgen import documents
from lib.objects import classes, deterministic_uuid, dump
from lib.pbt import Inconclusive, Prop, Violation
from lib.scratch import doc_uri

import cwl_utils.parser as cwl

RULE = ("A case is a recipe (the object model of a generated document), a way to write identifiers and references (absolute, "
        "fragments, or short as authors write them) and up to 4 edits of attributes; the objects are built bottom-up with "
        "the public constructors (or loaded and then edited), next to the plain document with the same fields; non-trivial "
        "when at least 6 distinct (class, field) pairs are set.")
ASSUMPTIONS = ["the document described by constructor arguments is the map of the same fields; content is compared as in C01",
               "an object built without id or name is saved with a blank one",
               "the prefix of extension classes is declared in the loading options given to the constructors"]

@functools.cache
def extensions(version):
    """Extension classes of a version -> URI."""
    _, names = salad.schema(version)
    return {n.rsplit(".", 1)[-1]: "http://commonwl.org/cwltool#" + n.rsplit(".", 1)[-1] for n in names.names if "cwltool" in n}


NS = {"ex": "http://example.org/", "cwltool": "http://commonwl.org/cwltool#"}
REFS = {"source", "outputSource", "scatter", "run", "type_", "items", "secrets", "loopSource", "import_"}
IDS = {"id", "name", "symbols"}


@functools.cache
def params(cls):
    ps = inspect.signature(cls.__init__).parameters.values()
    return [(p.name, p.default is inspect.Parameter.empty) for p in ps if p.name not in ("self", "loadingOptions", "extension_fields")]


class Builder:
    def __init__(self, mode, uri, construct, explicit, options, version):
        self.extensions = extensions(version)
        self.mode, self.uri, self.construct, self.explicit, self.options = mode, uri, construct, explicit, options
        self.nodes = []  # (object, plain map) pairs

    def short(self, v, key, proc):
        """The way an identifier or a reference is written."""
        if not isinstance(v, str) or self.mode == "absolute" or not (v == self.uri or v.startswith(self.uri + "#")):
            return v
        frag = v[len(self.uri) + 1:]
        if not frag:
            return v
        if self.mode == "plain":
            if key in IDS:
                return frag.rsplit("/", 1)[-1]
            if key not in ("run",) and frag.startswith(proc):
                return frag[len(proc):]
        return "#" + frag

    def build(self, v, key="", proc=""):
        """(object, plain value) of a part of the recipe."""
        if isinstance(v, Saveable):
            ident = getattr(v, "id", None)
            if isinstance(ident, str) and hasattr(v, "inputs") and hasattr(v, "outputs"):
                proc = ident[len(self.uri) + 1:] + "/" if ident.startswith(self.uri + "#") else ""
            args, plain = {}, {}
            if isinstance(getattr(v, "class_", None), str):
                plain["class"] = self.extensions.get(v.class_, v.class_)
            for name, required in params(type(v)):
                val = getattr(v, name)
                if val is None or name in ("id", "name") and BLANK.match(str(val)):
                    if self.explicit:
                        args[name] = None
                    continue
                args[name], plain[name[:-1] if name.endswith("_") else name] = self.build(val, name, proc)
            ext = getattr(v, "extension_fields", None) or {}
            for k, x in ext.items():
                plain[k] = x
            if self.construct:
                kw = {"loadingOptions": self.options} if self.options else {}
                if ext:
                    kw["extension_fields"] = copy.deepcopy(ext)
                obj = type(v)(**args, **kw)
            else:
                obj = v
            self.nodes.append((obj, plain))
            return obj, plain
        if isinstance(v, (list, tuple)):
            pairs = [self.build(x, key, proc) for x in v]
            return ([p[0] for p in pairs] if self.construct else v), [p[1] for p in pairs]
        if isinstance(v, dict):
            c = copy.deepcopy(v)
            return (c if self.construct else v), json.loads(json.dumps(v))
        if isinstance(v, str) and (key in IDS or key in REFS) and self.construct:
            v = self.short(v, key, proc)
        return v, v


TEXTS = [None, "", "new text", "two\nlines", "é $(inputs.x)"]


@st.composite
def recipes(draw):
    doc = draw(documents())
    edits = draw(st.lists(st.tuples(st.sampled_from(["text", "text", "drop", "drop", "reverse", "extra", "append", "link"]), st.integers(0, 999), st.integers(0, 999)).map(list), max_size=4))
    return {"doc": doc, "mode": draw(st.sampled_from(["plain", "plain", "fragment", "absolute", "loaded", "loaded"])),
            "explicit": draw(st.booleans()), "options": draw(st.sampled_from([None, "empty", "namespaces", "loaded"])),
            "id": draw(st.sampled_from([None, None, "main", "#main"])), "edits": edits, "copy": draw(st.sampled_from([None, None, "copy"]))}


def edit(nodes, kind, i, j):
    """The same change of an object and of the plain map."""
    if kind == "extra":
        obj, plain = nodes[i % len(nodes)]
        if not hasattr(obj, "extension_fields") or any(t in type(obj).__name__ for t in ("Schema", "Dirent", "File", "Directory", "Package", "Env", "Loop", "Binding", "Constraints", "Listing")):
            return None
        obj.extension_fields["http://example.org/extra"] = plain["http://example.org/extra"] = j
        return "extra"
    if kind in ("append", "link"):
        spots = [(o, p) for o, p in nodes if (getattr(o, "inputs", None) if kind == "append" else hasattr(o, "source"))]
        if not spots:
            return None
        obj, plain = spots[i % len(spots)]
        if kind == "link":
            obj.source = plain["source"] = ["added", ["added"]][j % 2]
            return "link"
        if any(str(x.id).rsplit("#")[-1].rsplit("/")[-1] == "added" for x in obj.inputs):
            return None
        extra = {"doc": "new"} if j % 2 else {}
        at = j % (len(obj.inputs) + 1)
        obj.inputs.insert(at, type(obj.inputs[0])(id=["added", "added", "#added"][j % 3], type_="string", **extra))
        plain["inputs"].insert(at, {"id": ["added", "added", "#added"][j % 3], "type": "string", **extra})
        return "append"
    spots = []
    for obj, plain in nodes:
        for name, required in params(type(obj)):
            k = name[:-1] if name.endswith("_") else name
            if kind == "text" and name in ("doc", "label"):
                spots.append((obj, plain, name, k))
            if kind == "drop" and not required and k in plain and name not in ("id", "name", "class_"):
                spots.append((obj, plain, name, k))
            if kind == "reverse" and isinstance(plain.get(k), list) and len(plain[k]) > 1:
                spots.append((obj, plain, name, k))
    if not spots:
        return None
    obj, plain, name, k = spots[i % len(spots)]
    if kind == "reverse":
        setattr(obj, name, list(reversed(getattr(obj, name))))
        plain[k] = plain[k][::-1]
    else:
        val = TEXTS[j % len(TEXTS)] if kind == "text" else None
        setattr(obj, name, val)
        plain.pop(k, None)
        if val is not None:
            plain[k] = val
    return "%s %s.%s" % (kind, type(obj).__name__, k)


def no_blank(x):
    if isinstance(x, dict):
        return {k: no_blank(v) for k, v in x.items() if not (k in ("id", "name") and isinstance(v, str) and BLANK.match(v))}
    if isinstance(x, list):
        return [no_blank(v) for v in x]
    return x


def make(case, uri):
    deterministic_uuid()
    recipe = cwl.load_document_by_yaml(copy.deepcopy(case["doc"]), uri)
    loaded = case["mode"] == "loaded"
    ns = {**NS, **case["doc"].get("$namespaces", {})}
    options = {None: None, "empty": LoadingOptions(), "namespaces": LoadingOptions(namespaces=dict(ns)),
               "loaded": recipe.loadingOptions}[case["options"]]
    if "$namespaces" in case["doc"] or any(c.split(".")[0] in extensions(case["doc"]["cwlVersion"]) for c in classes(recipe, set())):
        if case["options"] != "loaded":
            options = LoadingOptions(namespaces=dict(ns))  # extension classes need a declared prefix
    b = Builder(case["mode"], uri, not loaded, case["explicit"], options, case["doc"]["cwlVersion"])
    obj, plain = b.build(recipe)
    plain["cwlVersion"] = case["doc"]["cwlVersion"]
    if not loaded:
        obj.cwlVersion = plain["cwlVersion"]
        if case["id"]:
            obj.id = plain["id"] = case["id"]
        elif BLANK.match(str(obj.id)) or case["mode"] == "plain":
            plain.pop("id", None)
            obj.id = type(obj)(**{n: [] for n, r in params(type(obj)) if r and n != "id"}, **({"id": None} if ("id", True) in params(type(obj)) else {})).id
        if case["mode"] == "absolute" and "id" in plain:
            obj.id = plain["id"] = uri + "#main" if case["id"] else plain["id"]
    known = recipe.loadingOptions.namespaces if loaded else options.namespaces if options else None
    if known:
        plain["$namespaces"] = dict(known)
    done = [edit(b.nodes, *e) for e in case["edits"]]
    return obj, plain, [d for d in done if d]


def reload(doc, uri):
    """The object model of a document, None if it is refused."""
    deterministic_uuid()
    try:
        return dump(cwl.load_document_by_yaml(copy.deepcopy(doc), uri))
    except ValidationException:
        return None


def check(case, ctx):
    uri = doc_uri()
    version = case["doc"]["cwlVersion"]
    obj, plain, done = make(case, uri)
    try:
        want = canonical(plain, uri, version)
    except Exception as e:
        raise Inconclusive("the plain document is not valid: %s" % str(e)[:80])
    if len(classes(obj, set())) >= 6:
        ctx.nontrivial()
    ctx.label(version, case["mode"], *[d.split(" ")[0] for d in done])
    again = make(case, uri)[0]
    if not obj == again or obj != again:
        raise Violation("two objects built from the same values are not ==")
    if case["copy"]:
        obj = copy.copy(obj)
    for rel in (True, False):
        saved = obj.save(top=True, relative_uris=rel)
        if json.dumps(cwl.save(obj, relative_uris=rel)) != json.dumps(saved):
            raise Violation("save(object) and object.save() differ")
        text = json.loads(json.dumps(saved))
        ns = text.get("$namespaces") or {}
        if dict(ns) != plain.get("$namespaces", {}):
            raise Violation("$namespaces is %r" % ns)
        text = no_blank(text)
        try:
            have = canonical(text, uri, version)
        except Exception as e:
            raise Violation("the saved document (relative_uris=%s) does not resolve: %s" % (rel, str(e)[:300]))
        a, h = dict(want), dict(have)
        if "id" not in a and h.get("id") == uri:
            del h["id"]
        d = next(diff(a, h), None)
        if d:
            raise Violation("saved with relative_uris=%s after %s: %s" % (rel, done, d))
        reference = reload(plain, uri)
        if reference is not None:
            ctx.label("loads")
            d = next(diff(reference, reload(text, uri) or {}), None)
            if d:
                raise Violation("loading the object saved with relative_uris=%s after %s: %s" % (rel, done, d))


@st.composite
def graph_recipes(draw):
    return {"graph": draw(graphs()), "mode": draw(st.sampled_from(["plain", "fragment", "absolute", "loaded"])),
            "explicit": draw(st.booleans()), "versions": draw(st.sampled_from(["all", "all", "first", "last"])),
            "order": draw(st.booleans()), "drop": draw(st.lists(st.integers(0, 999), max_size=2))}


def check_graph(case, ctx):
    uri = doc_uri()
    doc = case["graph"]["doc"]
    version = doc["cwlVersion"]
    deterministic_uuid()
    recipes_ = cwl.load_document_by_yaml(copy.deepcopy(doc), uri, load_all=True)
    if case["order"]:
        recipes_ = list(reversed(recipes_))
    loaded = case["mode"] == "loaded"
    ns = {**NS, **doc.get("$namespaces", {})}
    objs, plains, nodes = [], [], []
    for i, r in enumerate(recipes_):
        b = Builder(case["mode"], uri, not loaded, case["explicit"], LoadingOptions(namespaces=dict(ns)), version)
        o, plain = b.build(r)
        plain.pop("cwlVersion", None)
        if not loaded:
            o.cwlVersion = version if case["versions"] == "all" or i == (0 if case["versions"] == "first" else len(recipes_) - 1) else None
        objs.append(o)
        plains.append(plain)
        nodes += b.nodes
    for k in case["drop"]:
        edit(nodes, "drop", k, 0)
        edit(nodes, "text", k, k)
    for p in plains:
        p.pop("cwlVersion", None)
    if all(o.cwlVersion is None for o in objs):
        objs[0].cwlVersion = version
    plain = {"cwlVersion": version, "$namespaces": ns if not loaded else dict(doc.get("$namespaces", {})), "$graph": plains}
    want = canonical(plain, uri, version)
    ctx.label(version, case["mode"], "processes %d" % len(objs))
    if len(classes(objs, set())) >= 6:
        ctx.nontrivial()
    for rel in (True, False):
        text = no_blank(json.loads(json.dumps(cwl.save(objs, relative_uris=rel))))
        if text.get("cwlVersion") != version or text.get("$namespaces", {}) != plain["$namespaces"]:
            raise Violation("saved as %s with $namespaces %r" % (text.get("cwlVersion"), text.get("$namespaces")))
        if [str(p.get("id")).rsplit("#", 1)[-1] for p in text["$graph"]] != [str(p.get("id")).rsplit("#", 1)[-1] for p in plains]:
            raise Violation("order of processes changed")
        have = canonical(text, uri, version)
        for p in have["$graph"].values():
            p.pop("cwlVersion", None)
            p.pop("$namespaces", None)
        d = next(diff(want, have), None)
        if d:
            raise Violation("saved graph (relative_uris=%s): %s" % (rel, d))
        for kw in ({"load_all": True}, {"id_": str(plains[0].get("id", "")).rsplit("#", 1)[-1]}):
            res = []
            for x in (plain, text):
                deterministic_uuid()
                try:
                    v = cwl.load_document_by_yaml(copy.deepcopy(x), uri, **kw)
                    res.append([dump(y) for y in v] if isinstance(v, list) else dump(v))
                except ValidationException as e:
                    res.append(None)
            if res[0] is not None:
                ctx.label("loads")
                d = next(diff(res[0], res[1] or {}), None)
                if d:
                    raise Violation("loading the saved graph (relative_uris=%s): %s" % (rel, d))


PROPS = [Prop("built", recipes(), check, 1600, 60000),
         Prop("graph", graph_recipes(), check_graph, 400, 15000)]
