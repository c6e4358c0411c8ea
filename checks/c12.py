"""C12: job input objects and file contents."""

import copy
import io
import json
import os
from pathlib import Path
from urllib.parse import quote, urljoin

from hypothesis import strategies as st

from lib import scratch
from lib import types_model as tm
from lib.pbt import Prop, Violation

import cwl_utils.parser as cwlparser
import cwl_utils.parser.utils as pu
from cwl_utils.errors import WorkflowException
from schema_salad.fetcher import DefaultFetcher
from schema_salad.runtime import LoadingOptions

RULE = ("objects: a case is a CWL version, a generated job object, a way to load it (URI, path, string, YAML, per-version functions) and "
        "whether the options of a process are given; non-trivial when it has a File or Directory. contents: a case is a version and a file "
        "content around the limit; non-trivial within 8 bytes of it.")
ASSUMPTIONS = ["locations are resolved as urljoin does (RFC 3986), which is what a job file's relative references mean",
               "a File with fields CWL does not define is not generated: the loader keeps it as a plain map"]

NAMES = ["job.yml", "my job.yml", "a+b.json", "100%.yml", "job#1.yml", "é.yml", "x?y.json", "p%41.yml"]
KEYS = ["a", "b", "file", "with space", "class_", "x-y", "id", "name", "é", "location", "path", "type", "items"]
SCALARS = st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.integers(-3, 3), st.floats(allow_nan=False, allow_infinity=False),
                    st.sampled_from(["", "x", "File", "a b", "$(inputs.x)", "true", "12", "#main", "http://example.com/x", "null", "é\n\u2028"]),
                    st.text(st.characters(min_codepoint=32, max_codepoint=0x24f, exclude_characters="\x7f" + "".join(map(chr, range(0x80, 0xa0)))), max_size=6))
LOCATIONS = ["f.txt", "sub/f.txt", "../up.txt", "a b.txt", "a+b.txt", "x#frag", "x%20y", "/abs/f.txt", "file:///abs/f.txt", "http://example.com/f.txt",
             "https://example.com/a?b=c#d", "./f", "é.txt", "s3://bucket/key", "_:literal"]


@st.composite
def files(draw, depth=2):
    d = {"class": draw(st.sampled_from(["File", "File", "Directory"]))}
    opt = lambda k, s, n=3: d.__setitem__(k, draw(s)) if draw(st.integers(0, n)) == 0 else None
    loc = draw(st.sampled_from(["location", "path", None, "location"]))
    if loc:
        d[loc] = draw(st.sampled_from(LOCATIONS))
    opt("basename", st.sampled_from(["f.txt", "a b", "é"]))
    if d["class"] == "File":
        if loc is None:
            d["contents"] = draw(st.sampled_from(["", "text\n", "$(x)"]))
        opt("size", st.integers(0, 2**50))
        opt("checksum", st.just("sha1$2fd4e1c67a2d28fced849ee1bb76e7391b93eb12"))
        opt("dirname", st.sampled_from(["/x", "d"]), 6)
        opt("nameroot", st.sampled_from(["f", ""]), 6)
        opt("nameext", st.sampled_from([".txt", ""]), 6)
        opt("format", st.sampled_from(["http://example.com/ns#fmt", "ex:fmt", "ex:other", "https://example.com/y"]))
        if depth and draw(st.integers(0, 3)) == 3:
            d["secondaryFiles"] = draw(st.lists(files(depth - 1), max_size=2))
    elif depth and (loc is None or draw(st.integers(0, 3)) == 3):
        d["listing"] = draw(st.lists(files(depth - 1), max_size=2))
    return dict(draw(st.permutations(sorted(d.items(), key=lambda x: x[0])))) if draw(st.booleans()) else d


def values():
    return st.recursive(st.one_of(SCALARS, files()), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from(KEYS), c, max_size=3)), max_leaves=8)


@st.composite
def cases(draw):
    return {"version": draw(st.sampled_from(tm.VERSIONS)), "job": draw(st.dictionaries(st.sampled_from(KEYS), values(), max_size=4)),
            "name": draw(st.sampled_from(NAMES)), "entry": draw(st.sampled_from(["path", "str", "file uri", "http uri", "string", "yaml", "load string", "load yaml", "version string", "version yaml", "version load", "version reference", "cwd"])),
            "process": draw(st.booleans()), "text": draw(st.sampled_from(["json", "indent", "yaml"])),
            "include": draw(st.integers(0, 7)) == 7}


def options(v):
    uri = scratch.doc_uri("elsewhere/proc.cwl")
    p = cwlparser.load_document_by_yaml({"cwlVersion": v, "class": "ExpressionTool", "id": "p", "inputs": [], "outputs": [], "expression": "$({})",
                                         "$namespaces": {"ex": "http://example.com/ns#"}}, uri)
    return p.loadingOptions


def resolve(base, ref):
    if ref.startswith("_:") or ref.startswith("s3:"):
        return ref
    return urljoin(base, ref)


def same(a, b):
    return a == b and all(isinstance(a, t) == isinstance(b, t) for t in (bool, str, float, int))


def compare(v, want, got, base, ns, where):
    mod = getattr(cwlparser, "cwl_" + v.replace(".", "_"))
    if isinstance(want, dict) and want.get("class") in ("File", "Directory"):
        cls = getattr(mod, want["class"])
        if type(got) is not cls:
            raise Violation("%s: a %s is loaded as %r" % (where, want["class"], type(got)))
        for f in ("location", "path", "basename", "contents", "size", "checksum", "dirname", "nameroot", "nameext", "format", "secondaryFiles", "listing"):
            w, g = want.get(f), getattr(got, f, None)
            at = where + "." + f
            if f in ("secondaryFiles", "listing") and w is not None:
                compare(v, w, g, base, ns, at)
                continue
            if w is not None and f in ("location", "path"):
                w = resolve(base, w)
            elif w is not None and f == "format" and w.startswith("ex:"):
                w = "http://example.com/ns#" + w[3:] if ns else g
            if not same(w, g):
                raise Violation("%s is %r in the document and loaded as %r, expected %r" % (at, want.get(f), g, w))
    elif isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            raise Violation("%s: map %r loaded as %r" % (where, want, got))
        for k in want:
            compare(v, want[k], got[k], base, ns, where + "." + k)
    elif isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            raise Violation("%s: list %r loaded as %r" % (where, want, got))
        for i, x in enumerate(want):
            compare(v, x, got[i], base, ns, "%s[%d]" % (where, i))
    elif not same(want, got):
        raise Violation("%s: %r loaded as %r" % (where, want, got))


def has_file(x):
    if isinstance(x, dict):
        return x.get("class") in ("File", "Directory") or any(map(has_file, x.values()))
    return isinstance(x, list) and any(map(has_file, x))


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def check(case, ctx):
    v, job, entry = case["version"], case["job"], case["entry"]
    d = os.path.join(scratch.docs_dir(), "jobs")
    os.makedirs(d, exist_ok=True)
    want = copy.deepcopy(job)
    if case["include"]:
        with open(os.path.join(d, "inc.txt"), "w") as f:
            f.write("included\ntext")
        job = {**job, "inc": {"$include": "inc.txt"}}
        want["inc"] = "included\ntext"
    if case["text"] == "yaml":
        from ruamel.yaml import YAML
        y = YAML(typ="safe", pure=True)
        y.width = 1000
        s = io.StringIO()
        y.dump(job, s)
        text = s.getvalue()
    else:
        text = json.dumps(job, indent=1 if case["text"] == "indent" else None)
    path = Path(d, case["name"])
    uri = path.as_uri()
    http = entry == "http uri"
    if http:
        if case["include"]:
            return
        uri = "http://example.com/jobs/" + quote(case["name"])
    else:
        path.write_text(text)
    opts = options(v) if case["process"] else None
    u = tm.vutils(v)
    original = copy.deepcopy(job)
    saved_opts = dict(vars(opts)) if opts else {}
    args = [opts] if opts else []
    old = os.getcwd()
    try:
        if entry == "path":
            got = pu.load_inputfile_by_uri(v, path, *args)
        elif entry == "str":
            if set(case["name"]) & set("%#?"):
                return  # a plain string is a URI reference, where these mean something else
            os.chdir(d)
            got = pu.load_inputfile_by_uri(v, case["name"], *args)
        elif entry == "file uri":
            got = pu.load_inputfile_by_uri(v, uri, *args)
        elif http:
            o = opts or LoadingOptions(fileuri=uri)
            o.fetcher = DefaultFetcher({uri: text}, None)
            got = pu.load_inputfile_by_uri(v, uri, o)
        elif entry == "string":
            got = pu.load_inputfile_by_string(v, text, uri, *args)
        elif entry == "yaml":
            got = pu.load_inputfile_by_yaml(v, job, uri, *args)
        elif entry == "load string":
            got = pu.load_inputfile(v, text, uri, *args)
        elif entry == "load yaml":
            got = pu.load_inputfile(v, job, uri, *args)
        elif entry == "version string":
            got = u.load_inputfile_by_string(text, uri, *args)
        elif entry == "version yaml":
            got = u.load_inputfile_by_yaml(job, uri, *args)
        elif entry == "version load":
            got = u.load_inputfile(job, uri, *args)
        elif entry == "version reference":
            got = u.load_inputfile(quote(case["name"]), Path(d).as_uri() + "/", *args)
        else:
            os.chdir(d)
            got = pu.load_inputfile(v, job, None, *args)
            uri = Path(d).as_uri() + "/"
    finally:
        os.chdir(old)
    if job != original:
        raise Violation("loading changed the document")
    if opts and not http and {k: x for k, x in vars(opts).items() if k not in ("idx",)} != {k: x for k, x in saved_opts.items() if k not in ("idx",)}:
        raise Violation("loading changed the options of the process")
    compare(v, want, got, uri, case["process"], "job")
    # the same data when saved, and loading that again gives the same objects
    ns = case["process"]
    saved = plain(cwlparser.save(got))
    compare(v, saved, got, uri, ns, "saved")
    again = pu.load_inputfile_by_yaml(v, copy.deepcopy(saved), uri, *args)
    if plain(cwlparser.save(again)) != saved:
        raise Violation("saving a job object and loading it again changes it: %s" % (saved,))
    if has_file(job):
        ctx.nontrivial()
    ctx.label("version:" + v, "entry:" + entry)


UNITS = ["a", "\n", "\r\n", "é", "€", "😀", "\x00", "\ufeff"]


@st.composite
def contents(draw):
    d = draw(st.integers(-8, 8) | st.sampled_from([-65536, -65535, -30000, 0, 1, 65536, 200000]))
    return {"version": draw(st.sampled_from(tm.VERSIONS)), "delta": d, "units": draw(st.lists(st.sampled_from(UNITS), min_size=1, max_size=4)),
            "lead": draw(st.integers(0, 4)), "kind": draw(st.sampled_from(["bytesio", "file", "offset"])), "bad": draw(st.integers(0, 5)) == 5}


def check_contents(case, ctx):
    v, size = case["version"], 65536 + case["delta"]
    unit = "".join(case["units"]).encode()
    data = (b"x" * case["lead"] + unit * (size // len(unit) + 1))[:size]
    if not case["bad"]:  # whole characters
        data = data.decode("utf-8", "ignore").encode()
        data += b"z" * (size - len(data))
    try:
        data.decode()
        valid = True
    except UnicodeDecodeError:
        valid = False
    u = tm.vutils(v)

    def opened():
        if case["kind"] == "bytesio":
            return io.BytesIO(data)
        p = os.path.join(scratch.docs_dir(), "contents.bin")
        with open(p, "wb") as f:
            f.write((b"skip" if case["kind"] == "offset" else b"") + data)
        f = open(p, "rb")
        if case["kind"] == "offset":
            f.seek(4)
        return f

    for read in (u.content_limit_respected_read_bytes, u.content_limit_respected_read):
        text = read is u.content_limit_respected_read
        with opened() as f:
            try:
                got = read(f)
            except WorkflowException as e:
                if v != "v1.2" or size <= 65536:
                    raise Violation("%d bytes refused in %s: %s" % (size, v, e)) from e
                continue
            except UnicodeDecodeError as e:
                if text and not valid:
                    continue
                raise Violation("%d bytes of valid text cannot be read in %s: %s" % (size, v, e)) from e
        if v == "v1.2" and size > 65536:
            raise Violation("%d bytes accepted in v1.2" % size)
        want = data[:65536]
        if text:
            want = want.decode("utf-8", "ignore" if valid else "strict") if valid else got
        if got != want:
            raise Violation("%d bytes read as %d, expected %d (%s)" % (size, len(got), len(want), v))
    if abs(case["delta"]) <= 8:
        ctx.nontrivial()
    ctx.label("version:" + v, "over" if size > 65536 else "within")


PROPS = [Prop("objects", cases(), check, quick=4000, thorough=100000), Prop("contents", contents(), check_contents, quick=800, thorough=20000)]
