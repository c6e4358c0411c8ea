"""C21: the helper conversions of utils.py against models."""

import copy
import http.server
import json
import os
import re
import threading
import urllib.parse

from hypothesis import strategies as st

from lib.pbt import Prop, Violation

from cwl_utils import utils
from cwl_utils.errors import MissingKeyField

RULE = ("A case is a nested structure, a list or map of entries, a base and a link, a type in an input, or linked files; "
        "non-trivial when the structure is nested and has byte strings, there are two entries, the link has several parts, the type has a modifier, or a link is followed.")
ASSUMPTIONS = ["keys of entries are distinct", "bases are absolute (file or http), or relative paths", "references have paths that need no normalization of percent escapes when remote",
               "the network is a server on the loopback interface"]

KEYS = st.sampled_from(["id", "type", "a", "b", "class", "in", "é", "", "a/b"])
SCALARS = st.one_of(st.none(), st.booleans(), st.integers(-5, 2**40), st.floats(allow_nan=False, allow_infinity=False), st.text("ab é:#/?[]\u20ac", max_size=5))
JSONISH = st.recursive(SCALARS, lambda s: st.one_of(st.lists(s, max_size=4), st.dictionaries(KEYS, s, max_size=4)), max_leaves=12)


# ---- byte strings ------------------------------------------------------------------------------------------
def with_bytes():
    leaf = st.one_of(SCALARS, st.builds(lambda s: {"!b": s}, st.text(max_size=5)), st.builds(lambda s: {"!b": s}, st.text(max_size=5)))
    return st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=5), st.dictionaries(KEYS, s, max_size=4)), max_leaves=15)


def build(x):
    if isinstance(x, dict):
        return x["!b"].encode() if set(x) == {"!b"} else {k: build(v) for k, v in x.items()}
    return [build(v) for v in x] if isinstance(x, list) else x


def as_text(x):
    if isinstance(x, dict):
        return x["!b"] if set(x) == {"!b"} else {k: as_text(v) for k, v in x.items()}
    return [as_text(v) for v in x] if isinstance(x, list) else x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def check_bytes(case, ctx):
    got = utils.bytes2str_in_dicts(build(case))
    want = as_text(case)
    if not same(got, want):
        raise Violation("bytes2str_in_dicts(%r) is %r" % (build(case), got))
    if not same(utils.bytes2str_in_dicts(copy.deepcopy(got)), want):
        raise Violation("bytes2str_in_dicts is not idempotent for %r" % (want,))
    if "!b" in json.dumps(case) and isinstance(case, (list, dict)) and len(case) > 1:
        ctx.nontrivial()


# ---- maps and lists ----------------------------------------------------------------------------------------
@st.composite
def entries(draw):
    key, value = draw(st.sampled_from([("id", "type"), ("id", "source"), ("class", None), ("package", "specs"), ("envName", "envValue")]))
    out = []
    for k in draw(st.lists(st.sampled_from(["a", "b", "x-1", "é", "#t", "a/b", "", "1"]), max_size=5, unique=True)):
        v = draw(st.dictionaries(st.sampled_from(["label", "doc", "default", "extra", "inputBinding", value or "z"]), JSONISH, max_size=3))
        if value and draw(st.integers(0, 2)) == 2:
            v = draw(JSONISH.filter(lambda j: not isinstance(j, dict)))
        out.append([k, v])
    return {"key": key, "value": value, "entries": out, "missing": draw(st.integers(0, 9)) == 9, "odd": draw(st.sampled_from([None] * 8 + ["text", 3, None]))}


def refuses(what, exc, f, *args):
    try:
        r = f(*args)
    except exc:
        return
    raise Violation("%s is accepted: %r" % (what, r))


def check_entries(case, ctx):
    key, value, es = case["key"], case["value"], case["entries"]
    full = [[k, v if isinstance(v, dict) else {value: v}] for k, v in es]
    amap = {k: v for k, v in es}
    alist = [dict(v, **{key: k}) for k, v in full]
    a0, l0 = copy.deepcopy(amap), copy.deepcopy(alist)

    def norm(x):
        return sorted((json.dumps(e, sort_keys=True) for e in x))

    got = utils.normalize_to_list(amap, key, value)
    if norm(got) != norm(alist) or [e[key] for e in got] != [k for k, _ in es]:
        raise Violation("normalize_to_list(%r) is %r" % (amap, got))
    same_list = utils.normalize_to_list(got, key, value)
    if same_list != got:
        raise Violation("normalize_to_list is not idempotent: %r, %r" % (got, same_list))
    back = utils.normalize_to_map(alist, key)
    if back != {k: v for k, v in full} or list(back) != [k for k, _ in es]:
        raise Violation("normalize_to_map(%r) is %r" % (l0, back))
    if not same(amap, a0):
        raise Violation("normalize_to_list changes its argument: %r to %r" % (a0, amap))
    if not same(alist, l0):
        raise Violation("normalize_to_map changes its argument: %r to %r" % (l0, alist))
    again = utils.normalize_to_map(back, key)
    if again != back or utils.normalize_to_list(back, key, value) != got:
        raise Violation("there and back again: %r is %r" % (back, again))
    for r in (got, same_list, back, again):  # nothing of the argument is shared
        scribble(r)
    if not same(amap, a0) or not same(alist, l0):
        raise Violation("a change to the result changes the argument: %r %r" % (amap, alist))
    if case["missing"] and es:
        bad = copy.deepcopy(l0)
        del bad[len(bad) // 2][key]
        refuses("an entry without its key", MissingKeyField, utils.normalize_to_map, bad, key)
    if case["odd"] is not None:
        refuses("%r" % case["odd"], RuntimeError, utils.normalize_to_map, case["odd"], key)
        refuses("%r" % case["odd"], RuntimeError, utils.normalize_to_list, case["odd"], key, value)
        refuses("[%r]" % case["odd"], RuntimeError, utils.normalize_to_map, [case["odd"]], key)
        refuses("{'k': %r} without a value field" % case["odd"], RuntimeError, utils.normalize_to_list, {"k": case["odd"]}, key, None)
    if len(es) > 1:
        ctx.nontrivial()


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["scribble"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("scribble")


# ---- references --------------------------------------------------------------------------------------------
def parts(u):
    """RFC 3986, appendix B."""
    m = re.match(r"^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?", u, re.S)
    return [m.group(2), m.group(4) if m.group(3) else None, m.group(5), m.group(7) if m.group(6) else None, m.group(9) if m.group(8) else None]


def remove_dots(path):
    out, segs = [], path.split("/")
    absolute = path.startswith("/")
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == ".":
            if last:
                out.append("")
        elif s == "..":
            if len(out) > (1 if absolute else 0) and out[-1] != "..":
                out.pop()
            elif not absolute:
                out.append("..")
            if last:
                out.append("")
        else:
            out.append(s)
    r = "/".join(out)
    return "/" + r.lstrip("/") if absolute else r


def resolve(base, link):
    """RFC 3986, section 5.2.2."""
    r, b = parts(link), parts(base)
    if r[0] is not None:
        return r
    if r[1] is not None:
        return [b[0], r[1], remove_dots(r[2]), r[3], r[4]]
    if r[2] == "":
        return [b[0], b[1], b[2], r[3] if r[3] is not None else b[3], r[4]]
    if r[2].startswith("/"):
        path = remove_dots(r[2])
    elif b[1] is not None and b[2] == "":
        path = remove_dots("/" + r[2])
    else:
        path = remove_dots(b[2][: b[2].rfind("/") + 1] + r[2])
    return [b[0], b[1], path, r[3], r[4]]


NAME = st.sampled_from(["a", "b.cwl", "dir", "x-y", "a b", "é", "c%20d", "1.0", "t.yml"])


@st.composite
def references(draw):
    kind = draw(st.sampled_from(["file", "http", "plain"]))
    ok = NAME.filter(lambda s: kind == "file" or all(ord(c) < 127 for c in s) and " " not in s)
    if kind == "plain":
        ok = ok.filter(lambda s: "%" not in s)
    base = "/".join(draw(st.lists(ok, min_size=1, max_size=4)))
    if kind == "file":
        base = "file:///" + "/".join(urllib.parse.quote(urllib.parse.unquote(p)) for p in base.split("/"))
    elif kind == "http":
        base = draw(st.sampled_from(["http://h/", "https://h.org:8080/r/", "http://u@h/"])) + base + draw(st.sampled_from(["", "", "?v=1"]))
    else:
        base = draw(st.sampled_from(["", "/", "/"])) + base
    how = draw(st.integers(0, 9))
    frag = draw(st.sampled_from(["", "", "#t", "#main/x", "#é" if kind == "file" else "#u"]))
    if how == 0:
        link = "#" + draw(st.sampled_from(["t", "main/x"]))
    elif how == 1:
        link = draw(st.sampled_from(["http://other/x.cwl", "https://h/y?q=1", "file:///abs/z.cwl"])) + frag
    elif how == 2:
        link = ""
    else:
        up = draw(st.sampled_from(["", "", "./", "../", "../../", "d/../"]))
        link = draw(st.sampled_from(["", "", "", "/"])) + up + "/".join(draw(st.lists(ok, min_size=1, max_size=3)))
        if link.startswith("/"):
            link = "/" + link.lstrip("/.")
        if kind == "http":
            link += draw(st.sampled_from(["", "", "?v=2", "?a=1&b=2"]))
        link += frag
    if kind == "plain" and how not in (0, 1, 2):
        depth = base.count("/")
        if link.count("..") > depth - (1 if base.startswith("/") else 0):
            link = link.replace("../", "")
    return {"base": base, "link": link}


def spelled(u):
    u = list(u)
    u[2] = urllib.parse.unquote(u[2]) if u[0] in ("file", None) else u[2]
    return [x or "" for x in u]


def check_reference(case, ctx):
    base, link = case["base"], case["link"]
    got = utils.resolved_path(urllib.parse.urlparse(base), link)
    want = resolve(base, link)
    if spelled(parts(got.geturl())) != spelled(want):
        raise Violation("%s in %s is %s, expected %s" % (link, base, got.geturl(), want))
    if got.scheme == "file":  # one spelling
        other = utils.resolved_path(urllib.parse.urlparse(base), urllib.parse.quote(urllib.parse.unquote(link), safe="/#:"))
        if not parts(link)[0] and other.path != got.path:
            raise Violation("%s in %s is %s, and %s when quoted" % (link, base, got.geturl(), other.geturl()))
    for u in (base, link, got.geturl()):
        scheme = parts(u)[0]
        if utils.is_uri(u) != (scheme is not None) or utils.is_local_uri(u) != (scheme == "file"):
            raise Violation("is_uri and is_local_uri of %s: %s %s" % (u, utils.is_uri(u), utils.is_local_uri(u)))
        frag = parts(u)[4]
        if frag is not None and utils.get_value_from_uri(u) != frag.split("/")[-1]:
            raise Violation("get_value_from_uri(%s) is %s" % (u, utils.get_value_from_uri(u)))
    if len([x for x in parts(link) if x]) > 1 or ".." in link:
        ctx.nontrivial()
    ctx.label("base:" + base.split(":")[0][:5])


# ---- types -------------------------------------------------------------------------------------------------
PRIM = st.sampled_from(["string", "int", "File", "Directory", "boolean", "long", "float", "double", "Any", "#rec"])


@st.composite
def types(draw):
    def one():
        k = draw(st.integers(0, 6))
        if k < 4:
            return draw(PRIM) + draw(st.sampled_from(["", "", "[]", "?", "[]?"]))
        if k == 4:
            return {"type": "enum", "symbols": draw(st.lists(st.sampled_from(["a", "b", "null", "File?"]), min_size=1, max_size=3, unique=True))}
        if k == 5:
            return {"type": "array", "items": draw(st.one_of(PRIM, st.just({"$import": "t.yml#x"})))}
        return {"$import": draw(st.sampled_from(["t.yml#x", "../s/t.yml#rec-ord"]))}

    k = draw(st.integers(0, 3))
    if k:
        t = one()
    else:
        t = [x for x in (one() for _ in range(draw(st.integers(1, 3)))) if x != {"$import": x}]
        if draw(st.booleans()):
            t.insert(draw(st.integers(0, len(t))), "null")
    return {"type": t, "extra": draw(st.dictionaries(st.sampled_from(["label", "default", "doc"]), st.sampled_from(["x?", "y[]", "z"]), max_size=2))}


def meaning(t):
    """The set of the alternatives of a type, with the shorthands expanded."""
    if isinstance(t, str):
        if t.endswith("?"):
            return meaning(t[:-1]) | {"null"}
        if t.endswith("[]"):
            return {json.dumps(["array", sorted(meaning(t[:-2]))])}
        return {t}
    if isinstance(t, list):
        return set().union(*map(meaning, t))
    if isinstance(t, dict):
        if "$import" in t:
            return {json.dumps(t)}
        if t["type"] == "enum":
            return {json.dumps(["enum", t["symbols"]])}
        if t["type"] == "array":
            return {json.dumps(["array", sorted(meaning(t["items"]))])}
        return meaning(t["type"])
    return meaning({"type": t.type_, **({"symbols": t.symbols} if t.type_ == "enum" else {"items": t.items})})


def check_type(case, ctx):
    item = dict(case["extra"], type=case["type"])
    before = copy.deepcopy(item)
    got = utils.sanitise_schema_field(item)
    if item != before:
        raise Violation("sanitise_schema_field changes its argument %s to %s" % (before, item))
    if {k: v for k, v in got.items() if k != "type"} != case["extra"]:
        raise Violation("sanitise_schema_field(%s) is %s" % (before, got))
    if meaning(got["type"]) != meaning(case["type"]):
        raise Violation("sanitise_schema_field(%s): type %s" % (before, sorted(meaning(got["type"]))))
    for t in got["type"] if isinstance(got["type"], list) else [got["type"]]:
        if isinstance(t, str) and t.endswith(("?", "[]")):
            raise Violation("sanitise_schema_field(%s) leaves %s" % (before, t))
        if isinstance(t, list):
            raise Violation("sanitise_schema_field(%s) gives a union in a union: %s" % (before, got["type"]))
    again = utils.sanitise_schema_field(got)
    if meaning(again["type"]) != meaning(case["type"]):
        raise Violation("sanitise_schema_field twice for %s: type %s" % (before, sorted(meaning(again["type"]))))
    if isinstance(case["type"], list) or not isinstance(case["type"], str) or case["type"].endswith(("?", "]")):
        ctx.nontrivial()


# ---- text --------------------------------------------------------------------------------------------------
def plain_keys(x):
    return x


def check_text(case, ctx):
    doc = case["doc"]
    text = utils.yaml_dumps(copy.deepcopy(doc))
    got = utils.fast_yaml.load(text)
    if not same(got, doc):
        raise Violation("yaml_dumps(%r) is %r" % (doc, text))
    name = case["name"]
    words = [w for w in re.split("[-_]", name)]
    want = "".join(w[:1].upper() + w[1:].lower() for w in words)
    if utils.to_pascal_case(name) != want:
        raise Violation("to_pascal_case(%s) is %s" % (name, utils.to_pascal_case(name)))
    if len(words) > 1:
        ctx.nontrivial()


TEXTS = st.builds(lambda d, n: {"doc": d, "name": n}, st.dictionaries(KEYS, st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-5, 2**40), st.text("ab é:#'\"\n{}[]-?1", max_size=8)), lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(KEYS, s, max_size=3)), max_leaves=8), max_size=4),
                  st.text("abcXYZ-_1.", min_size=1, max_size=12))


# ---- linked files ------------------------------------------------------------------------------------------
SERVER = {}


def serve():
    root = os.path.join(os.environ["TMPDIR"], "linked")
    os.makedirs(root, exist_ok=True)

    class H(http.server.SimpleHTTPRequestHandler):
        def __init__(self, *a):
            super().__init__(*a, directory=root)

        def log_message(self, *a):
            pass

    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    SERVER.update(root=root, port=s.server_port)


@st.composite
def linked(draw):
    names = draw(st.lists(st.sampled_from(["a.cwl", "d/b.yml", "d/e/c d.cwl", "é.cwl", "plain"]), min_size=2, max_size=4, unique=True))
    kind = draw(st.sampled_from(["doc", "doc", "doc", "link", "malformed", "missing"]))
    return {"names": names, "kind": kind, "doc": draw(st.dictionaries(st.sampled_from(["a", "b", "é"]), JSONISH, min_size=1, max_size=3)), "remote": draw(st.booleans()), "parse": draw(st.booleans())}


def relative(a, b):
    return urllib.parse.quote(os.path.relpath(b, os.path.dirname(a) or "."))


def check_linked(case, ctx):
    root, (base, target, *rest) = SERVER["root"], case["names"]
    kind = case["kind"]
    remote = case["remote"]
    text = json.dumps(case["doc"], indent=1, ensure_ascii=False) + "\n"
    for n in case["names"]:
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write("other: 1\n")
    final = target
    if kind == "link":
        final = rest[0] if rest else base
        with open(os.path.join(root, target), "w", encoding="utf-8") as f:
            f.write("./" + relative(target, final))
    with open(os.path.join(root, final), "w", encoding="utf-8") as f:
        f.write("{a: [1, }\n" if kind == "malformed" else text)
    if kind == "missing":
        os.unlink(os.path.join(root, target))
    prefix = "http://127.0.0.1:%d/" % SERVER["port"] if remote else "file://" + root + "/"
    base_url = urllib.parse.urlparse(prefix + urllib.parse.quote(base))
    link = relative(base, target)
    try:
        got, url = utils.load_linked_file(base_url, link, case["parse"])
    except SystemExit:
        if kind == "missing" and remote or kind == "malformed" and case["parse"]:
            ctx.label("refused:" + kind)
            return
        raise Violation("%s in %s is refused" % (link, base_url.geturl()))
    except OSError:
        if kind == "missing":
            ctx.label("refused:missing")
            return
        raise
    if kind == "missing" or (kind == "malformed" and case["parse"]):
        raise Violation("the %s file %s is %r" % (kind, target, got))
    if kind == "malformed":
        return
    if kind == "link" and not remote:
        ctx.label("text that looks like a link")
        with open(os.path.join(root, target), encoding="utf-8") as f:
            want, final = f.read(), target
    else:
        want = case["doc"] if case["parse"] else text
    if not same(got, want):
        raise Violation("%s in %s is %r" % (link, base_url.geturl(), got))
    if urllib.parse.unquote(url.geturl()) != urllib.parse.unquote(prefix) + final:
        raise Violation("%s in %s is %s" % (link, base_url.geturl(), url.geturl()))
    if remote or kind == "link" or "/" in base:
        ctx.nontrivial()
    ctx.label("%s %s" % ("remote" if remote else "local", kind))


PROPS = [Prop("bytes", with_bytes(), check_bytes, quick=4000, thorough=100000), Prop("entries", entries(), check_entries, quick=3000, thorough=80000),
         Prop("references", references(), check_reference, quick=6000, thorough=150000), Prop("types", types(), check_type, quick=3000, thorough=60000),
         Prop("text", TEXTS, check_text, quick=2000, thorough=40000), Prop("linked", linked(), check_linked, quick=2000, thorough=40000, setup=serve)]
