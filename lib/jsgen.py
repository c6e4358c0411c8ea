"""JavaScript expressions with a known value."""

import json

from hypothesis import strategies as st


def js_string(s, quote):
    """A JavaScript string literal for s."""
    out = quote
    for ch in s:
        if ch == quote or ch == "\\":
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ch == "\t":
            out += "\\t"
        else:
            out += ch
    return out + quote


JS_TEXT = "ab (){}[]'\"\\\n,;:$éß漢😀)"


@st.composite
def _leaf(draw):
    k = draw(st.sampled_from(["int", "str", "str", "bool", "null", "float"]))
    if k == "int":
        n = draw(st.integers(0, 1000))
        return str(n), n
    if k == "float":
        n = draw(st.integers(1, 999)) / 8
        return repr(n), n
    if k == "bool":
        b = draw(st.booleans())
        return ("true" if b else "false"), b
    if k == "null":
        return "null", None
    s = draw(st.text(JS_TEXT, max_size=6))
    return js_string(s, draw(st.sampled_from("'\""))), s


def _wrap(children):
    @st.composite
    def build(draw):
        k = draw(st.sampled_from(["paren", "list", "obj", "fn", "cond", "concat", "index", "len", "arith"]))
        src, v = draw(children)
        if k == "paren":
            return "(%s)" % src, v
        if k == "list":
            s2, v2 = draw(children)
            return "[%s, %s]" % (src, s2), [v, v2]
        if k == "obj":
            key = draw(st.sampled_from(["k", "a b", "x)", "}y", "é"]))
            return "({%s: %s})" % (js_string(key, '"'), src), {key: v}
        if k == "fn":
            return "(function(){var r = %s; return r;})()" % src, v
        if k == "cond":
            s2, v2 = draw(children)
            b = draw(st.booleans())
            return "(%s ? %s : %s)" % ("true" if b else "false", src, s2), (v if b else v2)
        if k == "concat":
            t = draw(st.text(JS_TEXT, max_size=4))
            if isinstance(v, str):
                return "(%s + %s)" % (src, js_string(t, "'")), v + t
            return "[%s][0]" % src, v
        if k == "index":
            return "[%s, 0]['0']" % src, v
        if k == "len":
            if isinstance(v, list):
                return "(%s).length" % src, len(v)
            return "(%s)" % src, v
        if isinstance(v, int) and not isinstance(v, bool):
            return "(%s + 1)" % src, v + 1
        return "(%s)" % src, v

    return build()


def js_value_expr(inputs_keys=()):
    return st.recursive(_leaf(), _wrap, max_leaves=4)
