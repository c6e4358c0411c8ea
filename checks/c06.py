"""C06: parameter references."""

from hypothesis import strategies as st

from lib.jsgen import js_string
from lib.pbt import Prop, Violation
from lib.util import NUM, json_values, same, text

from cwl_utils.errors import WorkflowException
from cwl_utils.expression import do_eval

RULE = ("A case is a JSON context and a reference path (valid by walking the context, or mutated); non-trivial when "
        "the path has at least two segments or must be rejected.")
ASSUMPTIONS = ["keys with backslashes are not generated (the reference grammar only escapes quotes)"]

# no names that JavaScript objects inherit, so that `undefined` is the JavaScript answer for an absent key
KEYS = ["a", "b", "key", "x1", "foo_bar", "9q", "class", "length", "path", "basename", "0", "1", "size", "nameroot",
        "with space", "dash-ed", "do.t", "quo'te", 'dq"x', "par)en", "br]ack", "ü", "漢", "$(", "{", "listing", "_"]
SYMBOL = {"a", "b", "key", "x1", "foo_bar", "class", "length", "path", "basename", "size", "nameroot", "listing", "_", "ü", "漢"}
SYMBOL_ONLY_REF = {"9q", "0", "1"}  # a CWL symbol that is not a JavaScript identifier

SC = st.one_of(st.none(), st.booleans(), NUM, text(6), st.sampled_from(["File", "Directory", ""]))
VALS = st.recursive(SC, lambda ch: st.one_of(st.lists(ch, max_size=4), st.dictionaries(st.sampled_from(KEYS), ch, max_size=5)), max_leaves=10)
OBJ = st.dictionaries(st.sampled_from(KEYS), VALS, max_size=5)
FILE = st.fixed_dictionaries(
    {"class": st.sampled_from(["File", "Directory"])},
    optional={"path": text(5), "basename": text(5), "size": st.integers(0, 9), "contents": text(4), "location": text(4),
              "secondaryFiles": st.lists(st.fixed_dictionaries({"class": st.just("File"), "basename": text(4)}), max_size=2),
              "listing": st.lists(st.fixed_dictionaries({"class": st.just("File"), "path": text(4)}), max_size=2),
              "a": text(3), "custom": VALS})

ROOTS = ["inputs", "self", "runtime"]


def seg_str(seg, style):
    """seg: str key or int."""
    if isinstance(seg, int):
        return "[%d]" % seg
    if style == 0 and (seg in SYMBOL or seg in SYMBOL_ONLY_REF):
        return "." + seg
    q = "'" if style <= 1 else '"'
    return "[%s%s%s]" % (q, seg.replace(q, "\\" + q), q)


@st.composite
def cases(draw):
    root = draw(st.sampled_from(ROOTS))
    inputs = draw(st.one_of(OBJ, st.dictionaries(st.sampled_from(KEYS), FILE, min_size=1, max_size=2)))
    selfv = draw(st.one_of(VALS, FILE, st.lists(FILE, max_size=3)))
    runtime = draw(st.dictionaries(st.sampled_from(["cores", "ram", "a", "b"]), st.one_of(st.integers(0, 99), st.floats(0, 9).map(lambda f: round(f, 2)), st.text("ab", max_size=3)), max_size=3))
    cur = {"inputs": inputs, "self": selfv, "runtime": dict(runtime, tmpdir="/t", outdir="/o")}[root]
    path = []
    if root == "inputs" and not cur:
        root, cur = "runtime", dict(runtime, tmpdir="/t", outdir="/o")
    for _ in range(draw(st.integers(0, 5))):
        if isinstance(cur, dict) and cur:
            k = draw(st.sampled_from(sorted(cur)))
            path.append(k)
            cur = cur[k]
        elif isinstance(cur, list):
            if draw(st.integers(0, 3)) == 3:
                path.append("length")
                cur = len(cur)
            elif cur:
                i = draw(st.integers(0, len(cur) - 1))
                path.append(i)
                cur = cur[i]
            else:
                break
        else:
            break
    mut = draw(st.sampled_from(["none", "none", "none", "badkey", "badindex", "extra", "indexmap", "keylist", "strindex", "lenafter"]))
    if mut == "badkey" and path:
        path[draw(st.integers(0, len(path) - 1))] = draw(st.sampled_from(KEYS + ["nope"]))
    elif mut == "badindex":
        path.append(draw(st.integers(0, 6)))
    elif mut == "extra":
        path.append(draw(st.sampled_from(KEYS)))
    elif mut == "indexmap":
        path.append(draw(st.integers(0, 2)))
    elif mut == "keylist":
        path.append(draw(st.sampled_from(["length", "a", "size"])))
    elif mut == "strindex":
        path.append(draw(st.sampled_from(["0", "1"])))
    elif mut == "lenafter":
        path += ["length", draw(st.sampled_from(["a", "length"]))]
    styles = [draw(st.integers(0, 2)) for _ in path]
    return {"inputs": inputs, "self": selfv, "runtime": runtime, "root": root, "path": path, "styles": styles,
            "js": draw(st.sampled_from([False, False, True])),
            "version": draw(st.sampled_from(["v1.0", "v1.1", "v1.2"]))}


class Undef(Exception):
    pass


def walk(v, path):
    """The specification's reading of a reference; None, None when it must be refused."""
    for n, seg in enumerate(path):
        if isinstance(seg, int):
            if not isinstance(v, list) or seg >= len(v):
                raise Undef
            v = v[seg]
        elif isinstance(v, dict):
            if seg not in v:
                raise Undef
            v = v[seg]
        elif isinstance(v, list) and seg == "length" and n == len(path) - 1:
            v = len(v)
        else:
            raise Undef
    return v


UNDEF = object()


def jswalk(v, path):
    """JavaScript property access."""
    for seg in path:
        if v is None or v is UNDEF:
            raise Undef
        key = str(seg)
        if isinstance(v, dict):
            v = v.get(key, UNDEF)
        elif isinstance(v, (list, str)):
            if isinstance(v, str):
                units = v.encode("utf-16-le")
                n = len(units) // 2
            else:
                n = len(v)
            if key == "length":
                v = n
            elif key.isdigit() and str(int(key)) == key and int(key) < n:
                if isinstance(v, str):
                    u = units[2 * int(key):2 * int(key) + 2]
                    v = u.decode("utf-16-le", "surrogatepass")
                else:
                    v = v[int(key)]
            else:
                v = UNDEF
        else:
            v = UNDEF
    if v is UNDEF:
        raise Undef
    return v


def check(case, ctx):
    ref = case["root"] + "".join(seg_str(s, t) for s, t in zip(case["path"], case["styles"]))
    rt = dict(case["runtime"])
    root = {"inputs": case["inputs"], "self": case["self"], "runtime": dict(rt, tmpdir="/t", outdir="/o")}[case["root"]]
    try:
        exp = walk(root, case["path"])
        bad = False
    except Undef:
        bad = True
        exp = None
    if bad and case["js"]:
        ident_ok = all(not (t == 0 and s in SYMBOL_ONLY_REF) for s, t in zip(case["path"], case["styles"]))
        if ident_ok:
            try:
                exp = jswalk(root, case["path"])
                bad = False
                ctx.label("js-only value")
            except Undef:
                pass
    if len(case["path"]) >= 2 or bad:
        ctx.nontrivial()
    ctx.label("rejected" if bad else "value", "js" if case["js"] else "nojs", case["root"])
    for s in case["path"]:
        ctx.label("index" if isinstance(s, int) else "key")
    reqs = [{"class": "InlineJavascriptRequirement"}] if case["js"] else []
    try:
        got = do_eval("$(%s)" % ref, case["inputs"], reqs, "/o", "/t", rt, context=case["self"], cwlVersion=case["version"])
    except WorkflowException as e:
        if not bad:
            raise Violation("$(%s) raised %s, expected %r" % (ref, str(e)[:300], exp)) from e
        return
    if bad:
        raise Violation("$(%s) gave %r, but it addresses nothing" % (ref, got))
    if not same(got, exp):
        raise Violation("$(%s) gave %r, expected %r" % (ref, got, exp))
    # the type is preserved: no numeric widening for values that are not re-read from JavaScript
    if not case["js"] and type(got) is not type(exp):
        raise Violation("$(%s) gave a %s, expected a %s" % (ref, type(got).__name__, type(exp).__name__))


NOT_REFS = ["1", "inputs.%s + 1", "inputs.%s == 2", "inputs .%s", "inputs.%s.", "inputs[%s]", "inputs['%s'", "inputs['%s\"]",
            "inputs..%s", "[inputs.%s]", "inputs.%s;", "inputs['%s'][-1]", "inputs.%s[0", "inputs.%s()", "inputs[\"%s\"] ", "foo.%s",
            "true", "undefined", "nullx", "null.%s", "inputs[null]", "inputs['']", "outputs['%s']"]


@st.composite
def nonref_cases(draw):
    return {"t": draw(st.sampled_from(NOT_REFS)), "k": draw(st.sampled_from(["a", "b", "key"])), "v": draw(VALS)}


def check_nonref(case, ctx):
    src = "$(" + (case["t"] % case["k"] if "%s" in case["t"] else case["t"]) + ")"
    ctx.nontrivial()
    try:
        got = do_eval(src, {case["k"]: case["v"], "": 1}, [], "/o", "/t", {}, context=None)
    except WorkflowException:
        return
    raise Violation("%s is not a parameter reference but evaluated to %r without JavaScript" % (src, got))


def check_null(case, ctx):
    ctx.nontrivial()
    got = do_eval("$(null)", {"null": case["v"]}, [{"class": "InlineJavascriptRequirement"}] if case["js"] else [], "/o", "/t", {}, context=case["v"])
    if got is not None:
        raise Violation("$(null) gave %r" % (got,))


PROPS = [
    Prop("walk", cases(), check, 24000, 300000),
    Prop("not_a_reference", nonref_cases(), check_nonref, 1600, 8000),
    Prop("null", st.fixed_dictionaries({"v": VALS, "js": st.booleans()}), check_null, 160, 800),
]
