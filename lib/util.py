"""Shared JSON strategies and comparisons."""

import json
import math

from hypothesis import strategies as st

WORDS = ["a", "b", "c", "key", "x1", "Foo", "foo_bar", "data", "items", "val", "_z", "9q"]
TEXT_ALPHABET = "abcXYZ019 _-.,:;/\"'()[]{}\n\téß漢😀<>&=%#@!?*+|~^`"


def same(a, b):
    """JSON equality: booleans are not numbers, 1 == 1.0."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def match_pieces(text, pieces, i=0):
    """pieces: list of ('lit', str) | ('json', value).  True when `text` is exactly their concatenation."""
    if not pieces:
        return i == len(text)
    kind, v = pieces[0]
    if kind == "lit":
        return text.startswith(v, i) and match_pieces(text, pieces[1:], i + len(v))
    if isinstance(v, (dict, list)):
        try:
            got, j = json.JSONDecoder().raw_decode(text, i)
        except ValueError:
            return False
        return same(got, v) and match_pieces(text, pieces[1:], j)
    cands = {json.dumps(v)}
    if isinstance(v, float) and v == int(v):
        cands.add(json.dumps(int(v)))
    return any(text.startswith(c, i) and match_pieces(text, pieces[1:], i + len(c)) for c in cands)


def merge_lits(pieces):
    out = []
    for k, v in pieces:
        if k == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + v)
        else:
            out.append((k, v))
    return out


def text(max_size=8, alphabet=TEXT_ALPHABET):
    return st.text(alphabet=alphabet, max_size=max_size)


SAFE_INT = st.integers(-(2**53) + 1, 2**53 - 1)
NUM = st.one_of(st.integers(-20, 100), SAFE_INT, st.floats(-1e6, 1e6, allow_nan=False).map(lambda f: round(f, 3)))
SCALAR = st.one_of(st.none(), st.booleans(), NUM, text())


def json_values(keys, max_leaves=8, scalar=SCALAR):
    return st.recursive(
        scalar,
        lambda ch: st.one_of(st.lists(ch, max_size=4), st.dictionaries(keys, ch, max_size=4)),
        max_leaves=max_leaves,
    )


def pick(seq):
    return st.sampled_from(list(seq))
